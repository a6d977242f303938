------------------------------ MODULE FieldTrace ------------------------------
(* C09 window / statistics / cache, C10 classification of values.             *)
EXTENDS FieldModel, TraceBase
VARIABLES l, st, viol
J(e, b) == Returned(e) \cup (IF e.ok THEN b ELSE {})
Judge(f, e) ==
  CASE e.ev = "NewF" -> Verdict(NewField(e.w), J(e, Need(e.size = 0 /\ e.flen = e.wantlen, "FreshModelEmpty")
                                   \cup NeedI(e.ok /\ e.signed = e.wantsigned /\ e.inttype = e.wantint, "TypeAttributes", e.t)))
    [] e.ev = "BadType" -> Verdict(f, Need(~e.ok /\ e.exc = "ValueError", "UnsupportedTypeRejected"))
    [] e.ev = "Add" -> LET g == AddSamples(f, e.vs) IN
          Verdict(g, J(e, NeedI(e.size = Len(g.xs), "ModelSizeIsWindowOccupancy", e.size)))
    [] e.ev = "Samples" -> Verdict(f, J(e, Need(e.xs = [i \in 1..Len(f.xs) |-> f.xs[i]], "KeepsExactlyTheLastSamples")))
    [] e.ev = "Mean" -> Verdict(f, J(e, NeedI(MeanIs(Finite(f), e.m), "MeanOfWindow", e.m)))
    [] e.ev = "Std" -> Verdict(f, J(e, NeedI(StdIs(Finite(f), e.d), "DeviationOfWindow", e.d)
                                  \cup Need((NVar(Finite(f)) = 0) => e.zero, "ConstantWindowHasZeroDeviation")))
    [] e.ev = "Classify" -> Verdict(f, J(e, NeedI(ClassifyIs(f, e.x, e.p, e.d), "TailProbability", e.p)
                                  \cup Need((NVar(Finite(f)) = 0) => e.zero, "ConstantWindowHasZeroDeviation")))
    [] e.ev = "Cdf" -> Verdict(f, J(e, NeedI(CdfIs(Finite(f), e.x, e.p), "GaussianCdf", e.p)))
    [] e.ev = "Pdf" -> Verdict(f, J(e, NeedI(PdfIs(Finite(f), e.x, e.p), "GaussianPdf", e.p)))
    [] e.ev = "Bits" -> Verdict(f, J(e, NeedI(e.bits = BitsOfBytes(e.want), "BitwiseRepresentation", e.t)))
    [] e.ev = "BitsInt" -> Verdict(f, J(e, NeedI(e.bits = BitsOfBytes(LEBytes(IF e.uns /\ e.v < 0 THEN 0 ELSE e.v, e.size)), "BitwiseRepresentation", e.t)))
    \* mean rounded to nearest; at an exact tie either neighbour
    [] e.ev = "BitMean" -> Verdict(f, J(e, LET s == Finite(f) n == Len(s) r == RoundDiv(SumSeq(s), n)
             cand == {IF e.uns /\ q < 0 THEN 0 ELSE q : q \in {q \in {r, r - 1} : 2 * Abs(q * n - SumSeq(s)) <= n}}
          IN NeedI(\E q \in cand : e.bits = BitsOfBytes(LEBytes(q, e.size)), "BitwiseMean", e.t)))
    \* the same far from zero, where the mean itself may be rounded: a constant window has exactly its value,
    \* any other the rounded mean
    [] e.ev = "BitMeanAt" -> Verdict(f, J(e, LET s == Finite(f) n == Len(s) IN
             IF NVar(s) = 0 THEN NeedI(e.bits = BitsOfBytes(e.want), "BitwiseMeanOfAConstant", e.t)
             ELSE NeedI(Abs(e.m * n - 1000 * SumSeq(s)) <= 510 * n, "BitwiseMean", e.t)))
T == INSTANCE TraceLoop WITH InitState <- NewField(0)
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
