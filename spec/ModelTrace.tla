------------------------------ MODULE ModelTrace ------------------------------
(* C11 bits/fields mapping, C12 save and reload, C13 learning & prediction.   *)
EXTENDS BufferModel, TraceBase
VARIABLES l, st, viol
J(e, b) == Returned(e) \cup (IF e.ok THEN b ELSE {})
JUnpack(e) == LET lay == Layout(e.struct) IN
   Need(e.names = [k \in 1..Len(lay) |-> lay[k].n], "FieldNamesInWireOrder")
   \cup Need(e.types = [k \in 1..Len(lay) |-> lay[k].t], "FieldTypesInWireOrder")
   \cup Need(e.map = BitMap(lay, e.len), "EveryBitMapsToItsField")
JValues(e) == LET v == Values(e.struct, e.buf) IN Need(e.vals = v, "FieldValuesMatchBytes")
JDamaged(e) == LET lay == Layout(e.struct)  bm == BitMap(lay, e.len)
     hit == SelectSeq(e.errs, LAMBDA b : b < Len(bm) /\ bm[b + 1] >= 0) IN
   Need(e.res = [k \in 1..Len(hit) |-> <<lay[bm[hit[k] + 1] + 1].n, bm[hit[k] + 1]>>], "DamagedFieldsAreThoseHit")
\* model inspection: e.fs = <<[n, t, size, m, d]>> one per known field
JStats(m, e) ==
   NeedI({e.fs[i].n : i \in 1..Len(e.fs)} = DOMAIN m.f /\ Len(e.fs) = Cardinality(DOMAIN m.f) /\ e.nf = Len(e.fs), "KnowsExactlyTheLearnedFields", e.nf)
   \cup UNION {IF e.fs[i].n \in DOMAIN m.f
               THEN LET g == m.f[e.fs[i].n]  s == Finite([w |-> 0, xs |-> g.xs]) IN
                    NeedI(e.fs[i].size = Len(g.xs), "FieldWindowOccupancy", e.fs[i])
                    \cup NeedI(MeanIs(s, e.fs[i].m) /\ StdIs(s, e.fs[i].d), "FieldStatistics", e.fs[i])
                    \cup NeedI(e.fs[i].t = g.t /\ e.fs[i].w = g.w, "FieldTypeAndWindow", e.fs[i])
               ELSE {} : i \in 1..Len(e.fs)}
   \cup NeedI(e.size = m.n /\ e.w = m.w, "ModelSizeIsCappedBufferCount", <<e.size, m.n>>)
JPredict(m, e) == LET lay == Layout(e.struct)  bm == BitMap(lay, Len(e.buf)) IN
   IF Len(e.res) # Len(lay) \/ Len(e.bitp) # Len(bm) \/ Len(e.bitd) # Len(bm) THEN {Fail("PredictionShape", "")}
   ELSE UNION {IF lay[k].n \in DOMAIN m.f
               THEN NeedI(e.res[k].known /\ e.res[k].n = lay[k].n /\ PredictIs(m, lay[k], e.buf, e.res[k].p, e.res[k].d), "FieldPrediction", e.res[k])
               ELSE NeedI(~e.res[k].known, "UnknownFieldHasNoPrediction", e.res[k]) : k \in 1..Len(lay)}
        \cup Need(\A i \in 1..Len(bm) : IF bm[i] = -1 \/ ~(lay[bm[i] + 1].n \in DOMAIN m.f)
                       THEN e.bitp[i] = -1 /\ e.bitd[i] = -1
                       ELSE e.bitp[i] = e.res[bm[i] + 1].p /\ e.bitd[i] = e.res[bm[i] + 1].d, "BitPredictionFollowsField")
\* e.bits[i] is the bit for buffer bit e.idx[i]
JBitMean(m, e) == LET lay == Layout(e.struct)  bm == BitMap(lay, e.len) IN
   IF Len(e.bits) # Len(e.idx) THEN {Fail("BitMeanShape", "")}
   ELSE Need(\A i \in 1..Len(e.idx) : (bm[e.idx[i] + 1] = -1 \/ ~(lay[bm[e.idx[i] + 1] + 1].n \in DOMAIN m.f)) => e.bits[i] = 0, "BitsOutsideTheModelAreZero")
        \cup UNION {LET I == {i \in 1..Len(e.idx) : bm[e.idx[i] + 1] = k - 1}
                        at(i) == e.idx[i] - 8 * lay[k].off + 1
                    IN NeedI(\E bs \in MeanBytes(m, lay[k]) : \A i \in I : e.bits[i] = BitsOfBytes(bs)[at(i)], "BitsOfTheMean", lay[k].n)
                    : k \in {k \in 1..Len(lay) : lay[k].t # "float" /\ lay[k].n \in DOMAIN m.f}}
\* fields at rest, of any magnitude, judged on their bytes: the state is field name -> the byte strings learned.  Where
\* all are the same the deviation is 0, that value alone is plausible, and the mean is that value
BytesAt(row, buf) == SubSeq(buf, row.off + 1, row.off + row.size)
LearnBytes(raw, struct, buf) == LET lay == Layout(struct) IN
   [n \in DOMAIN raw \cup {lay[k].n : k \in 1..Len(lay)} |->
      (IF n \in DOMAIN raw THEN raw[n] ELSE {}) \cup {BytesAt(lay[k], buf) : k \in {k \in 1..Len(lay) : lay[k].n = n}}]
JPredictS(raw, e) == LET lay == Layout(e.struct)  bm == BitMap(lay, Len(e.buf)) IN
   IF Len(e.p) # Len(lay) \/ Len(e.bitp) # Len(bm) THEN {Fail("PredictionShape", "")}
   ELSE UNION {IF Cardinality(raw[lay[k].n]) # 1 THEN {}
               ELSE NeedI(e.still[k] /\ e.p[k] = (IF BytesAt(lay[k], e.buf) \in raw[lay[k].n] THEN 1000000 ELSE 0), "OnlyItsOwnValueIsPlausibleAtRest", lay[k].n)
               : k \in 1..Len(lay)}
        \cup Need(\A i \in 1..Len(bm) : IF bm[i] = -1 THEN e.bitp[i] = -1 ELSE e.bitp[i] = e.p[bm[i] + 1] /\ e.bitstill[i] = e.still[bm[i] + 1], "BitPredictionFollowsField")
JBitMeanS(raw, e) == LET lay == Layout(e.struct)  bm == BitMap(lay, e.len) IN
   IF Len(e.bits) # Len(e.idx) THEN {Fail("BitMeanShape", "")}
   ELSE UNION {LET k == bm[e.idx[i] + 1] + 1 IN
               IF k = 0 THEN Need(e.bits[i] = 0, "BitsOutsideTheModelAreZero")
               ELSE LET v == raw[lay[k].n] IN
                    IF Cardinality(v) # 1 THEN {}
                    ELSE NeedI(e.bits[i] = BitsOfBytes(CHOOSE b \in v : TRUE)[e.idx[i] - 8 * lay[k].off + 1], "BitsOfTheMean", lay[k].n) : i \in 1..Len(e.idx)}
Judge(m, e) ==
  CASE e.ev = "Unpack" -> Verdict(m, J(e, JUnpack(e)))
    [] e.ev = "Values" -> Verdict(m, J(e, JValues(e)))
    [] e.ev = "Damaged" -> Verdict(m, J(e, JDamaged(e)))
    [] e.ev = "NewM" -> Verdict(NewModel(e.w), J(e, Need(e.size = 0 /\ e.nf = 0, "FreshModelEmpty")))
    [] e.ev = "AddBuf" -> LET g == AddBuffer(m, e.struct, e.buf) IN Verdict(g, J(e, NeedI(e.size = g.n, "ModelSizeIsCappedBufferCount", e.size)))
    [] e.ev = "Own" -> Verdict(Install(m, e.n, e.t, e.w, e.xs), J(e, NeedI(e.size = m.n, "ModelSizeIsCappedBufferCount", e.size)))
    [] e.ev = "Sample" -> Verdict(AddMany(m, e.n, e.t, e.xs), J(e, NeedI(e.size = m.n, "ModelSizeIsCappedBufferCount", e.size)))
    [] e.ev = "Stats" -> Verdict(m, J(e, JStats(m, e)))
    [] e.ev = "Predict" -> Verdict(m, J(e, JPredict(m, e)))
    [] e.ev = "BitMean" -> Verdict(m, J(e, JBitMean(m, e)))
    [] e.ev = "NewS" -> Verdict([n \in {} |-> {}], Returned(e))
    [] e.ev = "AddS" -> Verdict(LearnBytes(m, e.struct, e.buf), Returned(e))
    [] e.ev = "ReloadS" -> Verdict(m, Returned(e))
    [] e.ev = "PredictS" -> Verdict(m, J(e, JPredictS(m, e)))
    [] e.ev = "BitMeanS" -> Verdict(m, J(e, JBitMeanS(m, e)))
    \* the reloaded model replaces the saved one: same description, and every later event is judged against the same state
    [] e.ev = "Reload" -> Verdict(m, J(e, Need(e.desc = e.desc0 /\ e.ord = e.ord0, "DescriptionSurvives")
                                          \cup Need(e.hasdesc => e.ord = e.wantord, "OrderedFieldNamesFollowDescription")))
T == INSTANCE TraceLoop WITH InitState <- NewModel(0)
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
