-------------------------------- MODULE Num --------------------------------
(* Exact integer comparisons beyond 31 bits, Gaussian field statistics as    *)
(* integer inequalities, and the trusted function graphs (tables.json).      *)
EXTENDS Common, Json, IOUtils
Tab == JsonDeserialize(IOEnv.SPECDIR \o "/tables.json")

B15 == 32768
B30 == 1073741824
\* a * b as <<hi, lo>> in base 2^30, 0 <= a, b < 2^30
Mul2(a, b) ==
  LET a1 == a \div B15  a0 == a % B15  b1 == b \div B15  b0 == b % B15
      m1 == a1 * b0     m2 == a0 * b1
      lo1 == a0 * b0
      s1 == (m1 % B15) * B15      s2 == (m2 % B15) * B15
      x1 == lo1 + (s1 % B30)      c1 == x1 \div B30   y1 == x1 % B30
      x2 == y1 + (s2 % B30)       c2 == x2 \div B30   y2 == x2 % B30
  IN <<a1 * b1 + (m1 \div B15) + (m2 \div B15) + c1 + c2, y2>>
LeqPair(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
\* a*b <= c*d
MulLeq(a, b, c, d) == LeqPair(Mul2(a, b), Mul2(c, d))

\* ---- samples: sequences of integers ----------------------------------------
SumSq(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
\* n^2 * variance
\* (of the samples less their mean: the same number, but small on the way)
NVar(s) == IF s = <<>> THEN 0
           ELSE LET c == SumSeq(s) \div Len(s)  t == [i \in 1..Len(s) |-> s[i] - c] IN Len(t) * SumSq(t) - SumSeq(t) * SumSeq(t)
\* m1000 is 1000 * mean, rounded
MeanIs(s, m1000) == IF s = <<>> THEN m1000 = 0 ELSE Abs(m1000 * Len(s) - 1000 * SumSeq(s)) <= Len(s)
\* d100 is 100 * standard deviation, rounded (d100 >= 0 and bounded)
StdIs(s, d100) ==
  IF s = <<>> \/ NVar(s) = 0 THEN d100 = 0
  ELSE /\ d100 >= 0 /\ d100 < 1000000
       /\ LET n == Len(s)  v == NVar(s)  lo == MaxOf(d100 - 1, 0) * n  hi == (d100 + 1) * n IN
            MulLeq(lo, lo, 10000, v) /\ MulLeq(10000, v, hi, hi)
\* z = |mean - x| / std; ZFloor = floor(40 z), capped at 400.  40 z = 40 |n x - S| / sqrt(NVar)
RECURSIVE ZSearch(_, _, _, _)
ZSearch(d, v, lo, hi) ==   \* largest i in lo..hi with i^2 v <= (40 d)^2
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF MulLeq(m * m, v, 40 * d, 40 * d) THEN ZSearch(d, v, m, hi) ELSE ZSearch(d, v, lo, m - 1)
\* exact for distances below 2^30 / 40; beyond that the result is 400 for every variance the samples can have
ZFloor(s, x) == ZSearch(MinOf(Abs(Len(s) * x - SumSeq(s)), 26843545), NVar(s), 0, 400)
\* p6 = 1e6 * P(|Z| >= z) within the bracket of the table
TailIs(s, x, p6) == LET i == ZFloor(s, x) IN
   IF i >= 400 THEN p6 >= 0 /\ p6 <= 2
   ELSE p6 <= Tab.erfc[i + 1] + 2 /\ p6 >= Tab.erfc[i + 2] - 2
CdfIs(s, x, p6) == LET i == ZFloor(s, x)  below == Len(s) * x < SumSeq(s) IN
   IF i >= 400 THEN (IF below THEN p6 <= 2 ELSE p6 >= 999998)
   ELSE IF below THEN p6 <= 1000000 - Tab.cdf[i + 1] + 2 /\ p6 >= 1000000 - Tab.cdf[i + 2] - 2
   ELSE p6 >= Tab.cdf[i + 1] - 2 /\ p6 <= Tab.cdf[i + 2] + 2
\* q6 = 1e6 * pdf * std (standardised density)
PdfIs(s, x, q6) == LET i == ZFloor(s, x) IN
   IF i >= 400 THEN q6 >= 0 /\ q6 <= 2
   ELSE q6 <= Tab.pdf[i + 1] + 2 /\ q6 >= Tab.pdf[i + 2] - 2

\* ---- little-endian two's complement representation --------------------------
RECURSIVE Pow256(_)
Pow256(k) == IF k = 0 THEN 1 ELSE 256 * Pow256(k - 1)
\* byte k (0-based) of v, for |v| < 2^31: floor semantics give two's complement
LEByte(v, k) == IF k >= 4 THEN (IF v < 0 THEN 255 ELSE 0)
                ELSE IF k = 3 THEN (v \div 16777216) % 256
                ELSE (v \div Pow256(k)) % 256
LEBytes(v, size) == [k \in 1..size |-> LEByte(v, k - 1)]
=============================================================================
