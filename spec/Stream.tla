-------------------------------- MODULE Stream --------------------------------
(* The MAVLink byte-stream parser as a state machine.  The parser holds the  *)
(* bytes received and not yet consumed; one step consumes one unit from the  *)
(* front: a byte that cannot start a frame, or a whole frame as announced by *)
(* its length byte (checked or not).  Parameters: the two start markers, the *)
(* number of header bytes needed to know the length, the length of the frame *)
(* at the front, and whether that frame is accepted.                         *)
EXTENDS Integers, Sequences
CONSTANTS Starts(_), Peek, UnitLen(_), Accept(_)
\* is there a unit at the front of b?
Junk(b) == b # <<>> /\ ~Starts(b[1])
Complete(b) == b # <<>> /\ Starts(b[1]) /\ Len(b) >= Peek /\ Len(b) >= UnitLen(b)
HasUnit(b) == Junk(b) \/ Complete(b)
Unit(b) == IF Junk(b) THEN <<b[1]>> ELSE SubSeq(b, 1, UnitLen(b))
Kind(b) == IF Junk(b) THEN "prefix" ELSE IF Accept(Unit(b)) THEN "msg" ELSE "bad"
Rest(b) == SubSeq(b, Len(Unit(b)) + 1, Len(b))
\* everything that can be consumed: <<outputs, rest>>
RECURSIVE Drain(_, _)
Drain(b, out) == IF HasUnit(b) THEN Drain(Rest(b), Append(out, [k |-> Kind(b), d |-> Unit(b)])) ELSE <<out, b>>
DrainAll(b) == Drain(b, <<>>)
=============================================================================
