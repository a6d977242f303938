-------------------------------- MODULE Info --------------------------------
(* Information measures of rational distributions: a pmf is a sequence of     *)
(* counts with sum n; entropies in 1e-6 bits, Hellinger distances in 1e-4.    *)
EXTENDS Num
\* empirical distribution
AlphabetOf(rows) == SetToSortSeq(UNION {ToSet(rows[i]) : i \in 1..Len(rows)}, LAMBDA a, b : a < b)
FreqOf(row, alpha) == [j \in 1..Len(alpha) |-> Count(row, alpha[j])]
\* v is num/den at the given scale, up to tol units
IsFrac(v, num, den, scale, tol) == Abs(v) <= 2 * scale /\ Abs(v * den - num * scale) <= tol * den
Entropy(w) == LET n == SumSeq(w) IN SumSeq([j \in 1..Len(w) |-> Tab.plogp[n][w[j] + 1]])
\* 1 - Bhattacharyya coefficient, 1e-4
HellSq(w, v) == LET R == Tab.sqrti[SumSeq(w) * SumSeq(v) + 1]
                    S == SumSeq([j \in 1..Len(w) |-> Tab.sqrti[w[j] * v[j] + 1]])
                IN 10000 - (S * 10000) \div R
SamePmf(w, v) == LET n == SumSeq(w)  m == SumSeq(v) IN \A j \in 1..Len(w) : w[j] * m = v[j] * n
IsHellinger(h, w, v) == /\ h >= 0 /\ h <= 10001
                        /\ Abs((h * h) \div 10000 - HellSq(w, v)) <= 5
                        /\ SamePmf(w, v) => h <= 1
\* typical set bounds for entropy t/4 and slack j/4, n(t+j) and n(t-j) multiples of 4
TypicalUpper(n, t, j) == 2 ^ ((n * (t + j)) \div 4)
TypicalLower1024(n, t, j) == LET e == (n * (t - j)) \div 4 IN IF e >= 0 THEN (4 - j) * 256 * (2 ^ e) ELSE ((4 - j) * 256) \div (2 ^ (-e))
=============================================================================
