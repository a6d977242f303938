------------------------------- MODULE MCStream -------------------------------
(* Design check of the stream parser over a toy alphabet: bytes 0..3, start  *)
(* marker 3, second byte = payload length (0..3), last byte = checksum       *)
(* (length + payload sum) mod 4.  Every byte stream up to MaxLen, cut into   *)
(* chunks in every way, read one unit per call or drained.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES fed, buf, out
TStarts(x) == x = 3
TLen(b) == b[2] + 3
RECURSIVE SumTo(_, _)
SumTo(b, n) == IF n = 0 THEN 0 ELSE b[n] + SumTo(b, n - 1)
TAccept(u) == u[Len(u)] = (SumTo(u, Len(u) - 1) + 1) % 4
P == INSTANCE Stream WITH Starts <- TStarts, Peek <- 2, UnitLen <- TLen, Accept <- TAccept
Init == fed = <<>> /\ buf = <<>> /\ out = <<>>
Chunks == UNION {[1..n -> 0..3] : n \in 1..2}
\* a chunk arrives, and the parser hands out at most one unit
Feed(c) == /\ Len(fed) + Len(c) <= MaxLen /\ fed' = fed \o c
           /\ LET b == buf \o c IN
              IF P!HasUnit(b) THEN buf' = P!Rest(b) /\ out' = Append(out, [k |-> P!Kind(b), d |-> P!Unit(b)])
              ELSE buf' = b /\ out' = out
\* a call without new data
Poll == P!HasUnit(buf) /\ buf' = P!Rest(buf) /\ out' = Append(out, [k |-> P!Kind(buf), d |-> P!Unit(buf)]) /\ UNCHANGED fed
Next == (\E c \in Chunks : Feed(c)) \/ Poll
Spec == Init /\ [][Next]_<<fed, buf, out>>
RECURSIVE Cat(_)
Cat(o) == IF o = <<>> THEN <<>> ELSE Head(o).d \o Cat(Tail(o))
\* every byte is handed out exactly once, in order, or still held
Accounted == Cat(out) \o buf = fed
\* what was handed out does not depend on the chunks: it is a prefix of, and after draining equals, the parse of the whole stream
Independent == LET w == P!DrainAll(fed) IN
   /\ Len(out) <= Len(w[1]) /\ out = SubSeq(w[1], 1, Len(out))
   /\ (~P!HasUnit(buf) => out = w[1] /\ buf = w[2])
   /\ P!DrainAll(buf)[1] = SubSeq(w[1], Len(out) + 1, Len(w[1]))
\* only accepted frames are messages
OnlyAccepted == \A i \in 1..Len(out) : out[i].k = "msg" => TStarts(out[i].d[1]) /\ Len(out[i].d) = TLen(out[i].d) /\ TAccept(out[i].d)
\* what is kept after draining is less than one frame
Bounded == ~P!HasUnit(buf) => Len(buf) < 6
=============================================================================
