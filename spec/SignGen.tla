-------------------------------- MODULE SignGen --------------------------------
(* What an adversary and a few honest senders put on a signed link.          *)
(* next: the sender's next frame; late / early: stamps around those last     *)
(* accepted; replay: something seen before; forge: bytes nobody signed;      *)
(* block: a forged frame far in the future on a stream not seen yet.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, cfg, done
Kinds == {"next", "next2", "late", "edge", "replay", "replay2", "forge", "forge2", "block", "unsigned", "v1", "badcrc"}
Init == hist = <<>> /\ done = FALSE /\ cfg \in [key : {TRUE}, cb : {"none", "yes", "no"}, t : 0..3] \cup [key : {FALSE}, cb : {"no"}, t : {0}]
Add(k) == /\ Len(hist) < Depth /\ ~done
          /\ \E s \in 0..3 : hist' = Append(hist, [k |-> k, s |-> s, a |-> RandomElement(0..999)])
          /\ done' = FALSE /\ UNCHANGED cfg
Emit == /\ Len(hist) >= Depth - 4 /\ ~done /\ PrintT(<<"GEN", ToJson([cfg |-> cfg, ops |-> hist])>>) /\ done' = TRUE /\ UNCHANGED <<hist, cfg>>
Next == (\E k \in Kinds : Add(k)) \/ Emit
=============================================================================
