------------------------------ MODULE DecoderGen ------------------------------
(* Channel histories for two-pass decoders.  Each step: what the inner         *)
(* decoder does on first and second pass (ok), whether the estimate carries    *)
(* intact messages only (full), some (part) or none (junk), which telemetry    *)
(* template is sent (t), and how noisy the channel word is.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [w : {0, 1, 2, 3, 5}, min : 0..3, thr : 0..5, clip : 0..3, x : 0..11] /\ hist = <<>> /\ done = FALSE
Est == {"full", "full", "part", "junk"}
Put(o) == hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Next ==
  \/ /\ ~done /\ Len(hist) < Depth
     /\ \/ \E e \in {"full", "part", "junk"}, t \in 0..3, v \in 0..2 : Put([ok1 |-> TRUE, ok2 |-> FALSE, e1 |-> e, e2 |-> "junk", t |-> t, v |-> v])
        \/ \E t \in 0..3, v \in 0..2 : Put([ok1 |-> TRUE, ok2 |-> FALSE, e1 |-> "full", e2 |-> "junk", t |-> t, v |-> v])
        \/ \E e1 \in {"full", "junk"}, e2 \in {"full", "part", "junk"}, k \in BOOLEAN, t \in 0..3 : Put([ok1 |-> FALSE, ok2 |-> k, e1 |-> e1, e2 |-> e2, t |-> t, v |-> 1])
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
