----------------------------- MODULE HeaderTrace -----------------------------
(* Conformance of protocol_meta's header handling (C01, C02) and of the      *)
(* published dialect metadata (C03).                                         *)
EXTENDS Mavlink, TraceBase
VARIABLES l, st, viol

U8(x) == x >= 0 /\ x <= 255

\* C01 ------------------------------------------------------------------------
JValid(e) == Returned(e) \cup (IF e.ok THEN Need(e.res = ValidHeader(e.h), "IsValidHeader") ELSE {})
\* exhaustive row: which length bytes are accepted for message id byte `id` (first byte = `stx`)
JRow(e) == Returned(e) \cup
  (IF e.ok THEN NeedI(ToSet(e.lens) = (IF e.stx = STX /\ e.id \in Ids THEN {MetaLen[e.id]} ELSE {}), "IsValidHeaderRow", e.id) ELSE {})

HeaderOf(id, sys, comp, seq) == <<STX, MetaLen[id], seq, sys, comp, id>>
ExpectMake(id, sys, comp, seq) ==
  IF ~(U8(sys) /\ U8(comp) /\ U8(seq) /\ U8(id)) THEN "NonUint8"
  ELSE IF id \notin Ids THEN "NonExistentMsdId" ELSE ""
JObj(e, id, sys, comp, seq) ==
   Need(e.buf = HeaderOf(id, sys, comp, seq), "HeaderBytes")
   \cup Need(e.len = MetaLen[id] /\ e.seq2 = seq /\ e.sys2 = sys /\ e.comp2 = comp /\ e.id2 = id, "HeaderAccessors")
   \cup Need(e.bits = BitsOfBytes(HeaderOf(id, sys, comp, seq)), "HeaderBitString")
   \cup Need(e.valid, "ConstructedHeaderIsValid")
JMake(e) == LET x == ExpectMake(e.id, e.sys, e.comp, e.seq) IN
   IF x # "" THEN NeedI(~e.ok /\ e.exc = x, "RejectBadHeader", e.exc)
   ELSE Returned(e) \cup (IF e.ok THEN JObj(e, e.id, e.sys, e.comp, e.seq) ELSE {})
JFrom(e) ==
   IF Len(e.h) # HLEN THEN NeedI(~e.ok /\ e.exc = "HeaderLength", "RejectHeaderLength", e.exc)
   ELSE LET id == IF e.force < 0 THEN e.h[6] ELSE e.force
            x == ExpectMake(id, e.h[4], e.h[5], e.h[3])
        IN IF x # "" THEN NeedI(~e.ok /\ e.exc = x, "RejectBadHeader", e.exc)
           ELSE Returned(e) \cup (IF e.ok THEN JObj(e, id, e.h[4], e.h[5], e.h[3]) ELSE {})
JHam(e) == IF Len(e.h) # HLEN THEN NeedI(~e.ok /\ e.exc = "HeaderLength", "RejectHeaderLength", e.exc)
           ELSE Returned(e) \cup (IF e.ok THEN Need(e.dist = HamBytes(e.own, e.h), "HeaderHamming") ELSE {})

\* C02 ------------------------------------------------------------------------
JDist(e) ==
   IF Len(e.h) # HLEN THEN NeedI(~e.ok /\ e.exc = "HeaderLength", "RejectHeaderLength", e.exc)
   ELSE Returned(e) \cup
     (IF ~e.ok THEN {}
      ELSE IF Allowed(e.maxlen) = {} THEN Need(e.id = -1, "NoAdmissibleMessage")
      ELSE LET m == MinHeaderDist(e.h, e.maxlen) IN
             Need(e.dist = m, "MinimalDistance")
             \cup Need(e.id \in Allowed(e.maxlen), "ChosenMessageAdmissible")
             \cup (IF e.id \in Ids THEN Need(HeaderDist(e.h, e.id) = m, "ChosenMessageAttainsMinimum") ELSE {})
             \cup Need((e.dist = 0) = (ValidHeader(e.h) /\ MetaLen[e.h[6]] <= (IF e.maxlen < 0 THEN 255 ELSE e.maxlen)), "ZeroIffValid"))

\* C03 ------------------------------------------------------------------------
JMeta(e) == LET m == Msg(e.id) IN Returned(e) \cup (IF ~e.ok THEN {} ELSE
     NeedK(e.len = m.len, "PublishedPayloadLength", ToString(e.id))
     \cup Need(e.len \in {m.len, m.scalar}, "PublishedPayloadLengthUnlisted")
     \cup NeedI(e.names = [i \in 1..Len(m.fields) |-> m.fields[i].n], "FieldOrder", e.id)
     \cup NeedI(e.types = [i \in 1..Len(m.fields) |-> m.fields[i].t], "FieldTypes", e.id))
JMetaGlobal(e) == Returned(e) \cup (IF ~e.ok THEN {} ELSE
     Need(ToSet(e.ids) = Ids /\ Len(e.ids) = Cardinality(Ids), "MessageIds")
     \cup Need(e.stx = STX /\ e.hlen = HLEN /\ e.clen = CLEN /\ e.over = OVERHEAD, "ProtocolConstants")
     \cup Need(e.fl = << <<"char", 1>>, <<"float", 4>>, <<"int16_t", 2>>, <<"int32_t", 4>>, <<"int64_t", 8>>, <<"int8_t", 1>>,
                        <<"uint16_t", 2>>, <<"uint32_t", 4>>, <<"uint64_t", 8>>, <<"uint8_t", 1>> >>, "FieldLengths"))
\* the published parser accepts exactly frames with right length and checksum
\* the published parser: a frame with the wire length and right checksum decodes to the bytes that were sent;
\* any corruption of one bit is rejected
JParse(e) == IF e.want THEN Returned(e) \cup (IF e.ok THEN Need(e.id2 = e.id /\ e.payload2 = e.payload, "ParserRoundTrip") ELSE {})
             ELSE NeedI(~e.ok /\ e.exc = "MAVError", "ParserRejects", e.exc)
\* formatting table: every scalar type packs into its length, little endian
JFmt(e) == Returned(e) \cup (IF e.ok THEN Need(e.size = e.len /\ e.le, "FormatString") ELSE {})

Judge(s, e) ==
  Verdict(s, CASE e.ev = "IsValid" -> JValid(e) [] e.ev = "Row" -> JRow(e) [] e.ev = "Make" -> JMake(e)
               [] e.ev = "From" -> JFrom(e) [] e.ev = "Ham" -> JHam(e) [] e.ev = "Dist" -> JDist(e)
               [] e.ev = "Meta" -> JMeta(e) [] e.ev = "MetaGlobal" -> JMetaGlobal(e) [] e.ev = "Parse" -> JParse(e)
               [] e.ev = "Fmt" -> JFmt(e))
T == INSTANCE TraceLoop WITH InitState <- 0
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
