------------------------------- MODULE ClassGen -------------------------------
(* Histories of vectors drawn around a few prototypes (t) at noise level v.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [min : {2, 3, 4, 5, 6, 7, 8}, k : {1, 2, 2, 3, 4}, cd : {"LL", "hamming"}, md : {"Hellinger", "KlDiv"}, ws : {"linear", "sqrt", "none"}, np : 1..4] /\ hist = <<>> /\ done = FALSE
Next ==
  \/ /\ ~done /\ Len(hist) < Depth
     /\ \E t \in 0..3, v \in 0..2 : hist' = Append(hist, [t |-> t, v |-> v]) /\ UNCHANGED <<cfg, done>>
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
