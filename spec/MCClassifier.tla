----------------------------- MODULE MCClassifier -----------------------------
(* Every history of short bit vectors, every tie broken either way.           *)
EXTENDS Classifier
CONSTANTS NB, MaxT, MinD, K, CD, MD, WS
VARIABLES s, last
P == [min |-> MinD, k |-> K, cd |-> CD, md |-> MD, ws |-> WS]
Vec == [1..NB -> {0, 1}]
Init == s = New /\ last = -1
Step == /\ s.seen < MaxT
        /\ \E x \in Vec, lab \in -1..(K - 1) : s' \in Classified(P, s, x, lab) /\ last' = lab
Next == Step
Spec == Init /\ [][Next]_<<s, last>>
\* every vector is in exactly one cluster
Conserved == FoldLeft(LAMBDA a, c : a + c.n, 0, s.cs) = s.seen
ClustersBound == s.init => Len(s.cs) <= K
LabelRange == (last = -1 <=> s.seen < MinD) /\ last < K
CountsBound == \A j \in 1..Len(s.cs) : s.cs[j].n >= 1 /\ \A i \in 1..NB : s.cs[j].o[i] >= 0 /\ s.cs[j].o[i] <= s.cs[j].n
\* a label always exists (the call never gets stuck)
Total == s.seen < MaxT => \A x \in Vec : \E lab \in -1..(K - 1) : Classified(P, s, x, lab) # {}
\* a vector never joins a cluster when another one's majority is strictly nearer (Hamming)
JoinsOne == [][\A j \in 1..Len(s.cs) : s.init => (s'.cs[j] = s.cs[j] \/ (j = last' + 1 /\ s'.cs[j].n = s.cs[j].n + 1))]_<<s, last>>
=============================================================================
