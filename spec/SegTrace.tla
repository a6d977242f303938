------------------------------- MODULE SegTrace -------------------------------
(* Conformance of buffer segmentation: C04 soundness, C05 completeness,      *)
(* C06 bad parts, C07 buffer structures, C08 field extraction.               *)
EXTENDS Mavlink, TraceBase
VARIABLES l, st, viol
S == INSTANCE Segmentation WITH ValidAt <- ValidFrameAt, LenAt <- FrameLen, HdrLen <- HLEN, CrcLen <- CLEN

\* e.buf bytes; e.parts; e.valid (one entry per bit: 0 / 1 / other); e.starts <<byte index (0-based), msg id>>
Starts1(e) == [j \in 1..Len(e.starts) |-> e.starts[j][1] + 1]
\* --- C04
JSound(e) ==
  IF ~(S!Sound(e.buf, Starts1(e))) THEN {Fail("OnlyVerifiedFrames", "")}
  ELSE Need(\A j \in 1..Len(e.starts) : e.buf[e.starts[j][1] + 6] = e.starts[j][2], "StructureNamesTheMessage")
       \cup Need(S!Ordered(Starts1(e)) /\ S!Disjoint(e.buf, Starts1(e)), "FramesOrderedAndDisjoint")
       \cup Need(Len(e.parts) = Len(e.buf) /\ Len(e.valid) = 8 * Len(e.buf), "ShapesMatchBuffer")
       \cup Need(\A k \in 1..Len(e.parts) : e.parts[k] = S!PartAt(e.buf, Starts1(e), k), "PartsFollowStructure")
       \cup Need(\A b \in 1..Len(e.valid) :
                   e.valid[b] = (IF S!PartAt(e.buf, Starts1(e), ((b - 1) \div 8) + 1) = S!UNKNOWN THEN 0 ELSE 1), "ValidityFollowsStructure")
JSeg4(e) == Returned(e) \cup (IF e.ok THEN JSound(e) ELSE {})
\* --- C05
JSeg5(e) == Returned(e) \cup (IF e.ok THEN NeedI(Starts1(e) = S!Greedy(e.buf), "LeftmostGreedySegmentation", [got |-> Starts1(e), want |-> S!Greedy(e.buf)])
                                           \cup Need(\A j \in 1..Len(e.starts) : e.starts[j][1] + 6 <= Len(e.buf) /\ e.buf[e.starts[j][1] + 6] = e.starts[j][2], "StructureNamesTheMessage") ELSE {})
\* a frame of message id alone in a buffer (wire format): must be recognised whole
JWhole(e) == Returned(e) \cup (IF e.ok THEN NeedK(e.starts = << <<0, e.id>> >>, "WireFrameRecognised", ToString(e.id)) ELSE {})
\* --- C06: the functions are given arbitrary part maps
JBad(e) == Returned(e) \cup (IF ~e.ok THEN {} ELSE
   LET R == S!BadRuns(e.parts) IN
     Need(Len(e.keys) = Len(R) /\ \A j \in 1..Len(R) : e.keys[j] = R[j][1] - 1, "BadPartIndices")
     \cup Need(Len(e.vals) = Len(R) /\ \A j \in 1..MinOf(Len(R), Len(e.vals)) : e.vals[j] = SubSeq(e.buf, R[j][1], R[j][2] - 1), "BadPartBytes")
     \cup Need(IF R = <<>> THEN e.none ELSE ~e.none /\ e.idx = [j \in 1..Len(R) |-> <<R[j][1] - 1, R[j][2] - 1>>], "BadPartRanges"))
JReassemble(e) == Returned(e) \cup (IF e.ok THEN Need(e.good = e.wantgood /\ e.rebuilt = e.buf, "GoodAndBadPartsReassemble") ELSE {})

\* --- C07 buffer structures (abstract state: received list per structure)
Adheres(struct, buf) == \A j \in 1..Len(struct) :
    /\ struct[j][1] + HLEN <= Len(buf)
    /\ buf[struct[j][1] + 6] = struct[j][2]
StructMap(s) == {<<s[j][1], s[j][2]>> : j \in 1..Len(s)}
\* state s: [struct |-> <<...>>, recv |-> <<bufs>>] of the structure object under test
JNew(s, e) == Verdict([struct |-> e.struct, recv |-> <<>>], Returned(e) \cup (IF e.ok THEN Need(e.len = Len(e.struct) /\ e.count = 0, "FreshStructureEmpty") ELSE {}))
JAdheres(s, e) == Verdict(s, Returned(e) \cup (IF e.ok THEN Need(e.res = Adheres(s.struct, e.buf), "Adherence") ELSE {}))
JRegister(s, e) ==
   IF Adheres(s.struct, e.buf)
   THEN LET n == [s EXCEPT !.recv = Append(@, e.buf)] IN
        Verdict(n, Returned(e) \cup (IF e.ok THEN Need(e.count = Len(n.recv) /\ e.recv = n.recv, "RegisteredBuffersInOrder") ELSE {}))
   ELSE Verdict(s, Need(~e.ok /\ e.exc = "ValueError", "RejectNonAdherent")
                   \cup Need(e.count = Len(s.recv) /\ e.recv = s.recv, "RejectedBufferLeavesNoTrace"))
JEq(s, e) == Verdict(s, Returned(e) \cup (IF e.ok THEN Need(e.res = (StructMap(s.struct) = StructMap(e.other)) /\ e.resdict = e.res /\ ~e.reso, "EqualityIsStructural")
                                   \cup Need(e.count = Len(s.recv), "EqualityHasNoEffect") ELSE {}))
JGet(s, e) == Verdict(s, Returned(e) \cup (IF e.ok THEN Need(e.starts = [j \in 1..Len(S!Greedy(e.buf)) |-> <<S!Greedy(e.buf)[j] - 1, e.buf[S!Greedy(e.buf)[j] + 5]>>], "StructureOfBuffer") ELSE {}))

\* --- C08: fields of a buffer.  e.fields: <<name, type, value bytes (wire order)>>; e.desc: description list
FieldsOf(buf) == LET G == S!Greedy(buf) IN
   FlattenSeq([j \in 1..Len(G) |-> LET m == Msg(buf[G[j] + 5]) IN
      [k \in 1..Len(m.fields) |-> <<m.name \o "_" \o m.fields[k].n, m.fields[k].t,
                                    SubSeq(buf, G[j] + HLEN + m.fields[k].off, G[j] + HLEN + m.fields[k].off + m.fields[k].size - 1)>>]])
DescOf(buf) == LET G == S!Greedy(buf) IN
   FlattenSeq([j \in 1..Len(G) |-> LET m == Msg(buf[G[j] + 5]) IN
      << [h |-> SubSeq(buf, G[j], G[j] + HLEN - 1), n |-> "", t |-> ""] >>
      \o [k \in 1..Len(m.fields) |-> [h |-> <<>>, n |-> m.name \o "_" \o m.fields[k].n, t |-> m.fields[k].t]]
      \o << [h |-> <<>>, n |-> "crc", t |-> ""] >>])
\* a message appearing twice keeps its last values
LastOf(fs) == {f \in ToSet(fs) : \A g \in 1..Len(fs) : fs[g][1] = f[1] => \E k \in g..Len(fs) : fs[k] = f}
JFields(s, e) == Verdict(s, Returned(e) \cup (IF ~e.ok THEN {} ELSE
    Need(ToSet(e.fields) = LastOf(FieldsOf(e.buf)), "FieldValues")
    \cup Need(e.desc = DescOf(e.buf), "BufferDescription")))

Judge(s, e) ==
  CASE e.ev = "Seg4" -> Verdict(s, JSeg4(e)) [] e.ev = "Seg5" -> Verdict(s, JSeg5(e)) [] e.ev = "Whole" -> Verdict(s, JWhole(e))
    [] e.ev = "Bad" -> Verdict(s, JBad(e)) [] e.ev = "Reassemble" -> Verdict(s, JReassemble(e))
    [] e.ev = "New" -> JNew(s, e) [] e.ev = "Adheres" -> JAdheres(s, e) [] e.ev = "Register" -> JRegister(s, e)
    [] e.ev = "Eq" -> JEq(s, e) [] e.ev = "Get" -> JGet(s, e) [] e.ev = "Fields" -> JFields(s, e)
T == INSTANCE TraceLoop WITH InitState <- [struct |-> <<>>, recv |-> <<>>]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
