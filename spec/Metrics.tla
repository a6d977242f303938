------------------------------- MODULE Metrics -------------------------------
(* Classification quality of a confusion matrix (rows: truth, columns:        *)
(* prediction), as exact fractions <<num, den>>; bit error rate.               *)
EXTENDS Common, TLC
Classes(a, p) == SetToSortSeq(ToSet(a) \cup ToSet(p), LAMBDA x, y : x < y)
Confusion(a, p) == LET L == Classes(a, p) IN
  [i \in 1..Len(L) |-> [j \in 1..Len(L) |-> Cardinality({t \in 1..Len(a) : a[t] = L[i] /\ p[t] = L[j]})]]
Truth(cm, c) == SumSeq(cm[c])
Predicted(cm, c) == SumSeq([i \in 1..Len(cm) |-> cm[i][c]])
Recall(cm, c) == <<cm[c][c], Truth(cm, c)>>                         \* undefined where the class never occurs
Precision(cm, c) == IF Predicted(cm, c) > 0 THEN <<cm[c][c], Predicted(cm, c)>> ELSE <<IF Truth(cm, c) = 0 THEN 1 ELSE 0, 1>>
F1(cm, c) == IF Truth(cm, c) + Predicted(cm, c) = 0 THEN <<1, 1>> ELSE <<2 * cm[c][c], Truth(cm, c) + Predicted(cm, c)>>
Total(cm) == SumSeq([i \in 1..Len(cm) |-> Truth(cm, i)])
Accuracy(cm) == <<SumSeq([i \in 1..Len(cm) |-> cm[i][i]]), Total(cm)>>
FracLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
\* ---- matching predicted clusters (columns) to true classes (rows): K labels 1..K ----------
Overlap(a, p, K) == [t \in 1..K |-> [c \in 1..K |-> Cardinality({i \in 1..Len(a) : a[i] = t - 1 /\ p[i] = c - 1})]]
\* all outcomes of repeatedly pairing a class and a cluster with the largest overlap left (ties either way)
RECURSIVE GreedyMaps(_, _, _)
GreedyMaps(O, rows, cols) ==
  IF cols = {} THEN {<<>>}
  ELSE LET top == Max({O[t][c] : t \in rows, c \in cols}) IN
       UNION {{m @@ (c :> t) : m \in GreedyMaps(O, rows \ {t}, cols \ {c})} : <<t, c>> \in {x \in rows \X cols : O[x[1]][x[2]] = top}}
OneToOne(m, K) == DOMAIN m = 1..K /\ {m[c] : c \in 1..K} = 1..K
\* no class and cluster overlap more than each does with its partner
Unblocked(m, O, K) == \A t \in 1..K, c \in 1..K : O[t][c] <= O[m[c]][c] \/ \E d \in 1..K : m[d] = t /\ O[t][c] <= O[t][d]
=============================================================================
