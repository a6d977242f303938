------------------------------- MODULE ModelGen -------------------------------
(* Histories of a buffer model: learn / predict / inspect / save and reload.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [w : {0, 0, 1, 2, 4}, s : 0..29] /\ hist = <<>> /\ done = FALSE
Put(o) == hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Next ==
  \/ /\ ~done /\ Len(hist) < Depth
     /\ \/ \E a \in 0..8 : Put([op |-> "add", a |-> a])
        \/ \E a \in 0..5 : Put([op |-> "predict", a |-> a])
        \/ \E a \in 0..1 : Put([op |-> "own", a |-> a])
        \/ \E a \in 0..2 : Put([op |-> "sample", a |-> a])
        \/ \E a \in 0..1 : Put([op |-> "stats", a |-> a])
        \/ \E a \in 0..2 : Put([op |-> "bitmean", a |-> a])
        \/ \E a \in 0..1 : Put([op |-> "reload", a |-> a])
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
