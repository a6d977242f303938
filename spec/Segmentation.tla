----------------------------- MODULE Segmentation -----------------------------
(* Breaking a byte buffer into frames.  Parameterised by what a valid frame  *)
(* is, so that the same definitions are model checked over a toy dialect     *)
(* (MCSegmentation) and used with the real wire format (SegTrace).           *)
EXTENDS Common
CONSTANTS ValidAt(_, _),    \* ValidAt(buf, i): a valid frame starts at byte i
          LenAt(_, _),      \* its length
          HdrLen, CrcLen
HEADER == 0  PAYLOAD == 1  CHECKSUM == 2  UNKNOWN == 3

\* ---- the scan, one byte position at a time (operational) --------------------
\* s = [pos, parts, starts]; parts: classification per byte, starts: <<index>> found so far
ScanInit(buf) == [pos |-> 1, parts |-> [i \in 1..Len(buf) |-> UNKNOWN], starts |-> <<>>]
Mark(parts, i, n) == [k \in 1..Len(parts) |->
   IF k < i \/ k >= i + n THEN parts[k]
   ELSE IF k < i + HdrLen THEN HEADER
   ELSE IF k < i + n - CrcLen THEN PAYLOAD ELSE CHECKSUM]
ScanStep(buf, s) ==
  IF s.parts[s.pos] # UNKNOWN \/ ~ValidAt(buf, s.pos) THEN [s EXCEPT !.pos = @ + 1]
  ELSE [pos |-> s.pos + 1, parts |-> Mark(s.parts, s.pos, LenAt(buf, s.pos)), starts |-> Append(s.starts, s.pos)]
RECURSIVE ScanFrom(_, _)
ScanFrom(buf, s) == IF s.pos > Len(buf) THEN s ELSE ScanFrom(buf, ScanStep(buf, s))

\* ---- the same, characterised declaratively ----------------------------------
\* greedy(buf): frame starts, leftmost first, each frame excluding every start it covers
RECURSIVE GreedyFrom(_, _)
GreedyFrom(buf, i) ==
  IF i > Len(buf) THEN <<>>
  ELSE IF ValidAt(buf, i) THEN <<i>> \o GreedyFrom(buf, i + LenAt(buf, i))
  ELSE GreedyFrom(buf, i + 1)
Greedy(buf) == GreedyFrom(buf, 1)
Covered(buf, starts) == {k \in 1..Len(buf) : \E j \in 1..Len(starts) : k >= starts[j] /\ k < starts[j] + LenAt(buf, starts[j])}
PartAt(buf, starts, k) ==
  LET J == {j \in 1..Len(starts) : k >= starts[j] /\ k < starts[j] + LenAt(buf, starts[j])}
  IN IF J = {} THEN UNKNOWN
     ELSE LET i == starts[CHOOSE j \in J : TRUE]  n == LenAt(buf, i)
          IN IF k < i + HdrLen THEN HEADER ELSE IF k < i + n - CrcLen THEN PAYLOAD ELSE CHECKSUM

\* ---- soundness / completeness clauses on any claimed segmentation -----------
\* starts: claimed frame starts, in order
Ordered(starts) == \A j \in 1..(Len(starts) - 1) : starts[j] < starts[j + 1]
Sound(buf, starts) == \A j \in 1..Len(starts) : starts[j] \in 1..Len(buf) /\ ValidAt(buf, starts[j])
Disjoint(buf, starts) == \A j \in 1..(Len(starts) - 1) : starts[j] + LenAt(buf, starts[j]) <= starts[j + 1]
\* a valid frame is missed only if it starts inside a frame that was recognised before it
Complete(buf, starts) == \A i \in 1..Len(buf) :
   ValidAt(buf, i) => \/ \E j \in 1..Len(starts) : starts[j] = i
                      \/ \E j \in 1..Len(starts) : starts[j] < i /\ i < starts[j] + LenAt(buf, starts[j])

\* ---- bad parts: maximal runs of UNKNOWN bytes -------------------------------
\* sequence of <<first, last + 1>> (1-based first)
BadRuns(parts) ==
  LET n == Len(parts)
      Bad(k) == k \in 1..n /\ parts[k] = UNKNOWN
      First == {k \in 1..n : Bad(k) /\ ~Bad(k - 1)}
      EndOf(k) == Min({m \in k..(n + 1) : ~Bad(m)})
  IN [j \in 1..Cardinality(First) |->
        LET k == CHOOSE x \in First : Cardinality({y \in First : y < x}) = j - 1 IN <<k, EndOf(k)>>]
=============================================================================
