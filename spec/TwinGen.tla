-------------------------------- MODULE TwinGen --------------------------------
(* Schedules of two twins (1, 2) fed the same inputs in the same order and a    *)
(* third instance (3) fed others, and how the caller treats its buffers.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES cfg, sch, n, ops, done
Init == /\ cfg \in [w : {0, 1, 2, 3, 5}, min : 0..3, thr : 0..5, clip : 0..3, x : 0..11]
        /\ sch = <<>> /\ n = [i \in 1..3 |-> 0] /\ ops = <<>> /\ done = FALSE
Next ==
  \/ /\ ~done /\ Len(ops) < Depth
     /\ \E e \in {"full", "good", "clean", "part", "junk"}, t \in 0..2, v \in 0..2 : ops' = Append(ops, [e |-> e, t |-> t, v |-> v])
     /\ UNCHANGED <<cfg, sch, n, done>>
  \/ /\ ~done /\ Len(ops) = Depth /\ \E i \in 1..3 : n[i] < Depth /\ n' = [n EXCEPT ![i] = @ + 1] /\ sch' = Append(sch, i)
     /\ UNCHANGED <<cfg, ops, done>>
  \/ /\ ~done /\ Len(ops) = Depth /\ \A i \in 1..3 : n[i] = Depth
     /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> ops, sch |-> sch])>>) /\ done' = TRUE /\ UNCHANGED <<cfg, sch, n, ops>>
=============================================================================
