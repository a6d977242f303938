------------------------------- MODULE DudeGen -------------------------------
(* Histories for denoisers: single samples, sequences, resets, context setting.*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, hist, done
Init == /\ cfg \in [k : 0..3, a : {2, 3}, q : 0..3, hard : BOOLEAN, loss : 0..2, p : 0..3] /\ hist = <<>> /\ done = FALSE
Put(op, v) == hist' = Append(hist, [op |-> op, v |-> v]) /\ UNCHANGED <<cfg, done>>
Next ==
  \/ /\ ~done /\ Len(hist) < Depth
     /\ \/ \E op \in {"sample", "run", "seq"}, v \in 0..3 : Put(op, v)
        \/ \E op \in {"sample", "init", "bad", "reset"} : Put(op, 0)
  \/ /\ ~done /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
=============================================================================
