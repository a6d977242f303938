--------------------------------- MODULE Dude ---------------------------------
(* Universal discrete denoising over a known channel, in exact rational       *)
(* arithmetic.  A channel h = [P, Q, D]: transition probabilities P/8, inverse *)
(* Q/D; L the integer loss matrix.  Symbols 0..a-1.                            *)
EXTENDS Num
Symbols(h) == 0..(Len(h.P) - 1)
\* symmetric channel: every wrong symbol with probability q/8
Symmetric(a, q) == [P |-> [x \in 1..a |-> [y \in 1..a |-> IF x = y THEN 8 - (a - 1) * q ELSE q]],
                    Q |-> [x \in 1..a |-> [y \in 1..a |-> IF x = y THEN 8 - q ELSE -q]], D |-> 8 - a * q]
\* binary channel with P(0|0) = u/8, P(1|1) = v/8
Binary(u, v) == [P |-> << <<u, 8 - u>>, <<8 - v, v>> >>, Q |-> << <<v, u - 8>>, <<v - 8, u>> >>, D |-> u + v - 8]
IsInverse(h) == \A x, y \in 1..Len(h.P) : SumSeq([s \in 1..Len(h.P) |-> h.P[x][s] * h.Q[s][y]]) = (IF x = y THEN 8 * h.D ELSE 0)
\* estimated counts of the clean symbol, times D, given counts of the received symbol
Clean(h, cnt) == [x \in 1..Len(cnt) |-> SumSeq([s \in 1..Len(cnt) |-> cnt[s] * h.Q[s][x]])]
\* posterior weights (times 8D) given that y was received
Post(h, cnt, y) == LET t == Clean(h, cnt) IN [x \in 1..Len(cnt) |-> t[x] * h.P[x][y + 1]]
Costs(h, L, cnt, y) == LET p == Post(h, cnt, y) IN [j \in 1..Len(cnt) |-> SumSeq([x \in 1..Len(cnt) |-> p[x] * L[x][j]])]
Best(h, L, cnt, y) == LET c == Costs(h, L, cnt, y) IN {j \in 1..Len(c) : \A i \in 1..Len(c) : c[j] <= c[i]}
\* binary soft decision: at least one virtual observation of each symbol
SmoothPost(h, cnt, y) ==
  LET t == Clean(h, cnt)
      u == IF t[1] < h.D THEN <<h.D, t[2]>> ELSE IF t[2] < h.D THEN <<t[1], h.D>> ELSE t
  IN <<u[1] * h.P[1][y + 1], u[2] * h.P[2][y + 1]>>
\* a reported value v (1e-3) of the rational num/den
IsRatio(v, num, den, scale, tol) == den # 0 /\ Abs(v) <= 1000000000 \div Abs(den) /\ Abs(v * den - scale * num) <= tol * Abs(den)
\* ---- online variant: o = [ctx |-> current context, n |-> counts per full context] ------------------
NewOnline == [ctx |-> <<>>, n |-> <<>>]
Zero(h) == [x \in 1..Len(h.P) |-> 0]
CountOf(h, n, ctx) == IF ctx \in DOMAIN n THEN n[ctx] ELSE Zero(h)
Bump(c, y) == [c EXCEPT ![y + 1] = @ + 1]
Feed(h, k, o, y) ==
  IF Len(o.ctx) < k THEN [o EXCEPT !.ctx = Append(@, y)]
  ELSE [ctx |-> Tail(Append(o.ctx, y)), n |-> [c \in DOMAIN o.n \cup {o.ctx} |-> IF c = o.ctx THEN Bump(CountOf(h, o.n, c), y) ELSE o.n[c]]]
Warming(k, o) == Len(o.ctx) < k
\* counts the decision on y is based on (y included)
Basis(h, o, y) == Bump(CountOf(h, o.n, o.ctx), y)
\* ---- two-sided variant -----------------------------------------------------------------------------
TwoSided(ys, k, i) == <<SubSeq(ys, i - k, i - 1), SubSeq(ys, i + 1, i + k)>>
CountsAround(h, ys, k, i) ==
  LET I == {j \in (k + 1)..(Len(ys) - k) : TwoSided(ys, k, j) = TwoSided(ys, k, i)} IN
  [x \in 1..Len(h.P) |-> Cardinality({j \in I : ys[j] = x - 1})]
=============================================================================
