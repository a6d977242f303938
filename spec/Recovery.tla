------------------------------- MODULE Recovery -------------------------------
(* What a decoder makes of the model bits of an estimate: the messages in    *)
(* them and whether they account for every byte (fully recovered).            *)
EXTENDS Mavlink
SG == INSTANCE Segmentation WITH ValidAt <- ValidFrameAt, LenAt <- FrameLen, HdrLen <- HLEN, CrcLen <- CLEN
Starts(bits) == SG!Greedy(BytesOfBits(bits))
RECURSIVE CoversFrom(_, _, _)
CoversFrom(buf, g, pos) == IF g = <<>> THEN pos > Len(buf)
                           ELSE Head(g) = pos /\ CoversFrom(buf, Tail(g), pos + FrameLen(buf, pos))
FullyRecovered(bits) == LET b == BytesOfBits(bits) IN CoversFrom(b, SG!Greedy(b), 1)
MessageCount(bits) == Len(Starts(bits))
StructureOf(bits) == LET b == BytesOfBits(bits)  g == SG!Greedy(b) IN [j \in 1..Len(g) |-> <<g[j] - 1, b[g[j] + 5]>>]
ValidBits(bits) == LET b == BytesOfBits(bits)  g == SG!Greedy(b) IN
   [i \in 1..(8 * Len(b)) |-> SG!PartAt(b, g, ((i - 1) \div 8) + 1) # SG!UNKNOWN]
=============================================================================
