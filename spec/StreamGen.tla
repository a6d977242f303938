------------------------------- MODULE StreamGen -------------------------------
(* Abstract serial link: a list of pieces, each with a manner of delivery.   *)
(* c: 0 one chunk, 1 byte by byte, 2 cut at random, 3 held back and delivered *)
(* together with what follows, 4 one unit per call.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, done
Kinds == {"frame", "array", "badcrc", "badid", "short", "long", "v2", "v2signed", "v2flags", "v2bad", "v2id", "junk", "marks", "trunc", "cut", "text"}
Init == hist = <<>> /\ done = FALSE
Add(k) == /\ Len(hist) < Depth /\ ~done
          /\ \E c \in 0..4 : hist' = Append(hist, [k |-> k, c |-> c, a |-> RandomElement(0..999)])
          /\ done' = FALSE
Emit == /\ Len(hist) >= 2 /\ ~done /\ PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED hist
Next == (\E k \in Kinds : Add(k)) \/ Emit
=============================================================================
