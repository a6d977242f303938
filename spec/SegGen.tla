-------------------------------- MODULE SegGen --------------------------------
(* Abstract channel: builds buffers out of pieces.  A behaviour is a list of *)
(* piece descriptors; the driver turns each into bytes.                      *)
(*   frame     a valid frame of some scalar message                           *)
(*   array     a valid frame of a message with array fields                   *)
(*   nested    a valid frame whose payload contains a complete valid frame    *)
(*   overlap   a corrupted frame whose body contains a complete valid frame   *)
(*   badcrc    frame with one flipped checksum / payload / header bit         *)
(*   trunc     a frame cut short (at the end of the buffer or before more data)*)
(*   falsehdr  a valid header followed by too little or unrelated data        *)
(*   noise     random bytes (with marker bytes sprinkled in)                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, done
Kinds == {"frame", "frame", "nested", "overlap", "badcrc", "trunc", "falsehdr", "noise", "stx"}
Init == hist = <<>> /\ done = FALSE
Add(k) == /\ Len(hist) < Depth /\ ~done
          /\ \E a \in 0..15 : hist' = Append(hist, [k |-> k, a |-> a])
          /\ done' = FALSE
Emit == /\ hist # <<>> /\ ~done /\ PrintT(<<"GEN", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED hist
Next == (\E k \in Kinds : Add(k)) \/ Emit
=============================================================================
