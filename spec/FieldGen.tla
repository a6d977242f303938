------------------------------- MODULE FieldGen -------------------------------
(* Histories of one field model: additions (single, list, non-finite) and     *)
(* queries in every order; a behaviour is a list of operations.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Vals == {-50, -49, -17, -3, -1, 0, 1, 2, 5, 31, 50}
Init == /\ cfg \in [w : {0, 1, 2, 3, 5}, t : 0..9] /\ hist = <<>> /\ done = FALSE
Put(o) == hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Next ==
  \/ /\ ~done /\ Len(hist) < Depth
     /\ \/ \E v \in Vals : Put([op |-> "add", v |-> v])
        \/ \E v \in {0, 5} : Put([op |-> "add", v |-> v])
        \/ \E v \in {-3, 31}, u \in {0, 50} : Put([op |-> "list", v |-> v, u |-> u])
        \/ Put([op |-> "nan", v |-> 0]) 
        \/ Put([op |-> "inf", v |-> 0])
        \/ \E v \in 1..8 : Put([op |-> "mean", v |-> v])
        \/ \E v \in 1..8 : Put([op |-> "std", v |-> v])
        \/ \E v \in {-50, -1, 0, 5, 7, 31, -100, 100} : Put([op |-> "classify", v |-> v])
        \/ \E v \in {-50, 0, 13, 50} : Put([op |-> "cdf", v |-> v])
        \/ \E v \in {-50, 0, 13, 50} : Put([op |-> "pdf", v |-> v])
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
