---------------------------- MODULE ClassifierTrace ----------------------------
(* C29: labels, cluster contents and conservation of the buffer classifier.   *)
EXTENDS Classifier, TraceBase
VARIABLES l, st, viol
\* st = [p, s]
Obs(e) == [j \in 1..Len(e.cl) |-> [n |-> e.cl[j].n, o |-> e.cl[j].o]]     \* by label
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
Valid(e) == /\ \A j \in 1..Len(e.cl) : e.cl[j].uid = j - 1
            /\ \A j \in 1..Len(e.cl) : e.cl[j].hb = Majority([n |-> e.cl[j].n, o |-> e.cl[j].o])
Minus(c, x) == [n |-> c.n - 1, o |-> [i \in 1..Len(c.o) |-> c.o[i] - x[i]]]
Classify(x, e) ==
  LET p == x.p  s == x.s  o == Obs(e) IN
  IF ~e.ok THEN Verdict(x, Returned(e))
  ELSE IF Training(p, s)
  THEN Verdict([x EXCEPT !.s = Train(s, e.x)],
               Need(e.lab = -1, "TrainingLabel") \cup Need(SameBag(o, Append(s.cs, One(e.x))) /\ Valid(e), "TrainingKeepsEveryBuffer"))
  ELSE LET inrange == e.lab >= 0 /\ e.lab < Len(o)
           pre == IF inrange THEN [o EXCEPT ![e.lab + 1] = Minus(@, e.x)] ELSE o
           known == IF s.init THEN pre = s.cs ELSE \E c \in Merged(p, s.cs) : SameBag(pre, c)
       IN Verdict([x EXCEPT !.s = [seen |-> s.seen + 1, init |-> TRUE, cs |-> o]],
               Need(inrange, "LabelInRange") \cup Need(Valid(e), "ClusterDescription")
               \cup NeedI(known, IF s.init THEN "OnlyTheChosenClusterChanges" ELSE "ClosestClustersAreMerged", [lab |-> e.lab])
               \cup (IF inrange /\ known THEN Need((e.lab + 1) \in Nearest(p, pre, e.x), "ClosestClusterIsChosen") ELSE {}))
Judge(x, e) ==
  CASE e.ev = "NewC" -> Verdict([p |-> e.p, s |-> New], Returned(e))
    [] e.ev = "Classify" -> Classify(x, e)
T == INSTANCE TraceLoop WITH InitState <- [p |-> <<>>, s |-> New]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
