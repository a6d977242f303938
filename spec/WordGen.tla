------------------------------- MODULE WordGen -------------------------------
(* Arbitrary words over 0..7 with a small configuration; the utility drivers   *)
(* read data matrices, distributions, label sequences and chains from them.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [a : 0..3, b : 0..3, c : 0..3, d : 0..3, e : 0..3] /\ hist = <<>> /\ done = FALSE
Next ==
  \/ /\ ~done /\ Len(hist) < Depth /\ \E v \in 0..7 : hist' = Append(hist, v) /\ UNCHANGED <<cfg, done>>
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, w |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
