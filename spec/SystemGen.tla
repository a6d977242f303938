------------------------------- MODULE SystemGen -------------------------------
(* Histories for complete decoders: a warm-up of the same telemetry, then any   *)
(* mixture of error patterns and telemetry.                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [w : {0, 1, 2, 3, 5}, min : 0..3, clip : 1..3, x : 0..11, warm : 0..5] /\ hist = <<>> /\ done = FALSE
Put(o) == hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Next ==
  \/ /\ ~done /\ Len(hist) < cfg.warm /\ \E n \in {"clean", "clean", "few"} : Put([n |-> n, t |-> 0, v |-> 0])
  \/ /\ ~done /\ Len(hist) >= cfg.warm /\ Len(hist) < Depth
     /\ \/ \E n \in {"model", "field", "clean"} : Put([n |-> n, t |-> 0, v |-> 0])
        \/ \E n \in {"model", "field", "heavy", "clean", "few"}, t \in 0..2, v \in 0..1 : Put([n |-> n, t |-> t, v |-> v])
        \/ \E n \in {"model", "field"}, k \in 0..5 : Put([n |-> n, t |-> 0, v |-> 0])
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
