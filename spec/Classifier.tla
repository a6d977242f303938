------------------------------ MODULE Classifier ------------------------------
(* Online clustering of bit vectors.  While fewer than min vectors have been  *)
(* seen each one opens a cluster of its own and is labelled -1.  At the min-th *)
(* vector the closest pair of clusters is merged until at most k remain;       *)
(* from then on every vector joins the closest cluster and gets its label.     *)
(* A cluster is [n |-> number of vectors, o |-> number of ones per bit].       *)
(* Distances are real valued: a pair (or a cluster) counts as closest when it  *)
(* is within the numerical tolerance of the table.                             *)
EXTENDS Num
\* p = [min, k, cd, md, ws]: sizes, classify distance, merge distance, weights
One(x) == [n |-> 1, o |-> x]
Join(a, b) == [n |-> a.n + b.n, o |-> [i \in 1..Len(a.o) |-> a.o[i] + b.o[i]]]
Majority(c) == [i \in 1..Len(c.o) |-> IF 2 * c.o[i] > c.n THEN 1 ELSE 0]
\* --- closeness of two clusters: weight * sum over bits ------------------------
\* the sum over bits is scaled down for long vectors to stay within TLC's integers
Scale(a) == (Len(a.o) \div 40) + 1
BitDist(p, a, b) ==
  LET ns == [i \in 1..Len(a.o) |-> i] IN
  IF p.md = "KlDiv" THEN FoldLeft(LAMBDA s, i : s + Tab.skl[a.n][b.n][a.o[i] + 1][b.o[i] + 1], 0, ns) \div (10 * Scale(a))
  ELSE FoldLeft(LAMBDA s, i : s + Tab.hel[a.n][b.n][a.o[i] + 1][b.o[i] + 1], 0, ns) \div (10 * Scale(a))
\* thousandths
Weight(p, t) == IF p.ws = "sqrt" THEN Tab.wsqrt[t] ELSE IF p.ws = "linear" THEN 500 * t ELSE 1000
Dist(p, a, b) == Weight(p, a.n + b.n) * BitDist(p, a, b)
\* rounding of one table entry per bit, and of the weight
DTol(p, a, b) == Weight(p, a.n + b.n) * ((Len(a.o) \div (8 * Scale(a))) + 2) + (IF p.ws = "sqrt" THEN BitDist(p, a, b) ELSE 0)
Pairs(cs) == {q \in (1..Len(cs)) \X (1..Len(cs)) : q[1] < q[2]}
ClosestPairs(p, cs) ==
  LET d == [q \in Pairs(cs) |-> Dist(p, cs[q[1]], cs[q[2]])]
      up == Min({d[q] + DTol(p, cs[q[1]], cs[q[2]]) : q \in Pairs(cs)})
      near == {q \in Pairs(cs) : d[q] - DTol(p, cs[q[1]], cs[q[2]]) <= up}
      same(a, b) == {cs[a[1]], cs[a[2]]} = {cs[b[1]], cs[b[2]]}     \* equal contents: one of them is enough
  IN {q \in near : \A o \in near : (o # q /\ same(o, q)) => (o[1] > q[1] \/ (o[1] = q[1] /\ o[2] > q[2]))}
MergePair(cs, q) == LET cs2 == [cs EXCEPT ![q[1]] = Join(cs[q[1]], cs[q[2]])] IN RemoveAt(cs2, q[2])
RECURSIVE Merged(_, _)
Merged(p, cs) ==   \* the set of clusterings that repeated merging may end in
  IF Len(cs) <= p.k THEN {cs} ELSE UNION {Merged(p, MergePair(cs, q)) : q \in ClosestPairs(p, cs)}
\* --- closeness of a vector to a cluster ---------------------------------------
Far(p, c, x) ==
  LET ns == [i \in 1..Len(x) |-> i] IN
  IF p.cd = "hamming" THEN LET m == Majority(c) IN FoldLeft(LAMBDA s, i : s + (IF x[i] = m[i] THEN 0 ELSE 1), 0, ns)
  ELSE FoldLeft(LAMBDA s, i : s - Tab.lnp[c.n][(IF x[i] = 1 THEN c.o[i] ELSE c.n - c.o[i]) + 1], 0, ns)
FTol(p, x) == IF p.cd = "hamming" THEN 0 ELSE Len(x)
Nearest(p, cs, x) == LET f == [j \in 1..Len(cs) |-> Far(p, cs[j], x)]  best == Min({f[j] : j \in 1..Len(cs)})
                     IN {j \in 1..Len(cs) : f[j] <= best + 2 * FTol(p, x)}
AddTo(cs, j, x) == [cs EXCEPT ![j] = Join(@, One(x))]
\* --- one call ------------------------------------------------------------------
\* s = [seen, init, cs]
New == [seen |-> 0, init |-> FALSE, cs |-> <<>>]
Training(p, s) == s.seen + 1 < p.min
Train(s, x) == [s EXCEPT !.seen = @ + 1, !.cs = Append(@, One(x))]
\* clusterings the call may start from, up to the numbering of the labels
Perms(cs) == {[i \in 1..Len(cs) |-> cs[q[i]]] : q \in {f \in [1..Len(cs) -> 1..Len(cs)] : \A a, b \in 1..Len(cs) : a # b => f[a] # f[b]}}
Ready(p, s) == IF s.init THEN {s.cs} ELSE UNION {Perms(c) : c \in Merged(p, s.cs)}
\* all states after labelling x with lab (0-based)
Labelled(p, s, x, lab) ==
  {[seen |-> s.seen + 1, init |-> TRUE, cs |-> AddTo(cs, lab + 1, x)] :
     cs \in {c \in Ready(p, s) : lab >= 0 /\ lab < Len(c) /\ (lab + 1) \in Nearest(p, c, x)}}
Classified(p, s, x, lab) == IF Training(p, s) THEN (IF lab = -1 THEN {Train(s, x)} ELSE {}) ELSE Labelled(p, s, x, lab)
=============================================================================
