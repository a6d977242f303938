---------------------------- MODULE MCSegmentation ----------------------------
(* Exhaustive design check over a toy dialect: bytes 0..3, marker 3,         *)
(* header = <<3, id>>, ids {0: no payload, 1: one byte, 2: two bytes},       *)
(* checksum byte = (id + payload sum + 1) mod 4.  Every buffer up to         *)
(* MaxLen is scanned; the scan is the implementation-shaped state machine.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxLen
VARIABLES buf, s
Sum3(x) == x
PL(id) == id
TLen(b, i) == PL(b[i + 1]) + 3
TValid(b, i) == /\ i + 2 <= Len(b) /\ b[i] = 3 /\ b[i + 1] \in 0..2
                /\ i + TLen(b, i) - 1 <= Len(b)
                /\ LET id == b[i + 1]
                       sum == (IF id >= 1 THEN b[i + 2] ELSE 0) + (IF id = 2 THEN b[i + 3] ELSE 0)
                   IN b[i + TLen(b, i) - 1] = (id + sum + 1) % 4
S == INSTANCE Segmentation WITH ValidAt <- TValid, LenAt <- TLen, HdrLen <- 2, CrcLen <- 1
Bufs == UNION {[1..n -> 0..3] : n \in 0..MaxLen}
Init == buf \in Bufs /\ s = S!ScanInit(buf)
Next == s.pos <= Len(buf) /\ s' = S!ScanStep(buf, s) /\ UNCHANGED buf
Spec == Init /\ [][Next]_<<buf, s>>
Done == s.pos > Len(buf)
\* every intermediate state only ever marks verified frames
AlwaysSound == S!Sound(buf, s.starts) /\ S!Ordered(s.starts) /\ S!Disjoint(buf, s.starts)
MarksMatch == \A k \in 1..Len(buf) : s.parts[k] = S!PartAt(buf, s.starts, k)
AtEnd == Done => /\ s.starts = S!Greedy(buf)
                 /\ S!Complete(buf, s.starts)
                 /\ S!ScanFrom(buf, S!ScanInit(buf)) = s
\* bad parts partition the unknown bytes
Partition == Done => LET R == S!BadRuns(s.parts) IN
   /\ \A j \in 1..Len(R) : R[j][1] < R[j][2] /\ \A k \in R[j][1]..(R[j][2] - 1) : s.parts[k] = S!UNKNOWN
   /\ \A j \in 1..(Len(R) - 1) : R[j][2] < R[j + 1][1]
   /\ {k \in 1..Len(buf) : s.parts[k] = S!UNKNOWN} = UNION {R[j][1]..(R[j][2] - 1) : j \in 1..Len(R)}
\* already marked bytes never change: verified data is never re-classified
NoReclassify == [][\A k \in 1..Len(buf) : s.parts[k] # S!UNKNOWN => s'.parts[k] = s.parts[k]]_<<buf, s>>
=============================================================================
