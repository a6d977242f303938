------------------------------- MODULE MavTrace -------------------------------
(* C22 labels, structures and learning; C23 what the rectifying decoder gives *)
(* the inner decoder; C24 the two combined decoders.                           *)
EXTENDS MavDecoder, TraceBase
VARIABLES l, st, viol
TOL == 16
StructSeq(s) == [k |-> s.k, s |-> s.s]
SameSets(e, o) == ToSet(e.good) = {k - 1 : k \in o.G} /\ ToSet(e.bad) = {k - 1 : k \in o.B}
\* one recorded inner call against the admissible inputs; later passes start from the previous soft output
Passes(c, x0, lab, e) ==
  LET chan == Milli(e.llr)
      N == Len(e.calls)
      step(a, i) ==
        LET obs == IF i = 1 THEN chan ELSE SoftOf(e.r[i - 1])
            bm == a.x.ms[lab + 1]
            R == Rectified(c, a.x.m, a.x.ss[lab + 1], bm, obs)
            ok == {o \in R : Close(e.calls[i], PlusBits(c, bm, o.llr, chan), TOL)}
        IN [x |-> LearnPass(c, a.x, lab, chan, e.r[i]),
            bad |-> a.bad \cup NeedI(ok # {}, IF i = 1 THEN "RectifiedInput" ELSE "LaterPassInput", i),
            last |-> IF ok # {} THEN ok ELSE R, pre |-> a.x, obs |-> obs]
  IN FoldLeft(step, [x |-> x0, bad |-> {}, last |-> {}, pre |-> x0, obs |-> <<>>], [i \in 1..N |-> i])
\* number of passes: until one succeeds, at most c.passes
Wanted(c, e) == LET S == {i \in 1..c.passes : e.r[i].ok} IN IF S = {} THEN c.passes ELSE Min(S)
\* debug figures of the last pass, about the model as it was used
JDebug(c, x, obs, lab, e) ==
  LET s == x.ss[lab + 1]  n == Len(obs)  err == ToSet(e.err) IN
  IF ~c.dbg \/ ~s.k THEN Need(e.cp = <<>> /\ e.fp = <<>>, "NoFiguresWithoutPrediction")
  ELSE LET lay == Layout(s.s)  bm == BitMap(lay, n \div 8)
           F == ForcedBits(c, x.m, s, obs)
           mb == [j \in 1..Len(F) |-> CHOOSE b \in ModelBit(x.m, lay, bm, F[j]) : TRUE]
           w == FieldTables(s, n, Len(lay), ToSet(e.good), ToSet(e.bad), err)
           v == ForceTables(n, F, mb, err, Hard(e.llr)) IN
       NeedI(e.cp = w, "FieldFigures", <<e.cp, w>>) \cup NeedI(NearLast(e.fp, v), "ForcingFigures", <<e.fp, v>>)
JAnalyse(x, e) ==
  LET s == x.ss[e.lab + 1]  err == ToSet(e.err) IN
  IF ~s.k THEN Need(e.cp = <<>> /\ e.fp = <<>>, "NoFiguresWithoutPrediction")
  ELSE LET lay == Layout(s.s)  bm == BitMap(lay, e.n \div 8)
           mbs == [j \in 1..Len(e.forced) |-> ModelBit(x.m, lay, bm, e.forced[j])]
           w == FieldTables(s, e.n, e.nf, ToSet(e.good), ToSet(e.bad), err)
           v == ForceTables(e.n, e.forced, [j \in 1..Len(mbs) |-> CHOOSE b \in mbs[j] : TRUE], err, e.rx) IN
       NeedI(e.cp = w, "FieldFigures", <<e.cp, w>>)
       \cup (IF \A j \in 1..Len(mbs) : Cardinality(mbs[j]) = 1 THEN NeedI(NearLast(e.fp, v), "ForcingFigures", <<e.fp, v>>) ELSE {})
Decode(x, e) ==
  LET c == x.c   hb == HardOf(e.llr, c.m)
      ls == LabelStep(c, x.g, hb, e.lab) IN
  IF ~e.ok THEN Verdict(x, Returned(e))
  ELSE IF ~ls.good \/ e.lab >= c.kc THEN Verdict(x, {FailI("Label", "", e.lab)})
  ELSE LET y == [x EXCEPT !.g = ls.g]
           want == IF e.lab < 0 THEN 1 ELSE Wanted(c, e)
           rr == e.r[want]
           res == NeedI(Len(e.calls) = want, "PassesUntilSuccess", Len(e.calls))
             \cup Need(e.est = rr.est /\ e.okk = rr.ok /\ e.tag = rr.tag /\ e.it = SumSeq([i \in 1..want |-> e.r[i].it]), "ReportsTheInnerResult")
       IN IF Len(e.calls) # want THEN Verdict(y, res)
          ELSE IF e.lab < 0 THEN Verdict(y, res \cup Need(Close(e.calls[1], Milli(e.llr), 0), "ChannelOnlyWhileTraining")
                                           \cup Need(e.good = <<>> /\ e.bad = <<>> /\ e.seg = <<>> /\ e.cp = <<>> /\ e.fp = <<>>, "NothingReportedWhileTraining"))
          ELSE LET p == Passes(c, y, e.lab, e)
                   fit == {o \in p.last : SameSets(e, o)} IN
               Verdict(p.x, res \cup p.bad
                 \cup (IF c.kind # "mav" THEN {}
                       ELSE Need(fit # {}, "ReportedGoodAndBadFields")
                            \cup Need(fit # {} => \E o \in fit : e.seg = [i \in 1..Len(o.seg) |-> IF o.seg[i] THEN 1 ELSE 0], "ReportedMessageBits")
                            \cup JDebug(c, p.pre, p.obs, e.lab, e)))
\* what the decoder has learned so far
StatOk(m, f) == f.n \in DOMAIN m.f /\ LET g == m.f[f.n]  s == Finite([w |-> 0, xs |-> g.xs]) IN
   f.size = Len(g.xs) /\ f.t = g.t /\ MeanIs(s, f.m) /\ StdIs(s, f.d)
JLearned(x, e) ==
  NeedI([j \in 1..Len(e.ss) |-> StructSeq(e.ss[j])] = x.ss, "StructurePerLabel", e.ss)
  \cup NeedI({e.fs[i].n : i \in 1..Len(e.fs)} = DOMAIN x.m.f, "KnowsExactlyTheLearnedFields", Len(e.fs))
  \cup UNION {NeedI(StatOk(x.m, e.fs[i]), "LearnedStatistics", e.fs[i]) : i \in 1..Len(e.fs)}
  \cup NeedI(e.size = x.m.n, "ModelSize", e.size)
NewState(e) == [c |-> e.c, g |-> NewLabels, ss |-> [j \in 1..e.c.kc |-> NOSTRUCT],
   m |-> FoldLeft(LAMBDA a, b : AddBuffer(a, e.pre[1], b), NewModel(e.pw), IF e.pre = <<>> THEN <<>> ELSE Tail(e.pre)),
   ms |-> [j \in 1..e.c.kc |-> NewBits(e.c.w)]]
Judge(x, e) ==
  CASE e.ev = "NewD" -> Verdict(NewState(e), Returned(e))
    [] e.ev = "SetStructs" -> IF Len(e.ss) = x.c.kc THEN Verdict([x EXCEPT !.ss = [j \in 1..Len(e.ss) |-> [k |-> TRUE, s |-> e.ss[j]]]], Returned(e))
                              ELSE Verdict(x, Need(~e.ok /\ e.exc = "ValueError", "WrongNumberOfStructuresRejected"))
    [] e.ev = "Decode" -> Decode(x, e)
    [] e.ev = "Learned" -> Verdict(x, Returned(e) \cup (IF e.ok THEN JLearned(x, e) ELSE {}))
    [] e.ev = "Analyse" -> Verdict(x, Returned(e) \cup (IF e.ok THEN JAnalyse(x, e) ELSE {}))
    [] e.ev = "Table" -> Verdict(x, Returned(e) \cup (IF e.ok THEN NeedI(e.t = Table6(ToSet(e.p), ToSet(e.a), e.neg), "ConfusionTable", e.t) ELSE {}))
    [] e.ev = "BadLen" -> Verdict(x, Need(~e.ok /\ e.exc = "IncorrectBufferLength", "WrongLengthRejected"))
T == INSTANCE TraceLoop WITH InitState <- [c |-> <<>>, g |-> <<>>, ss |-> <<>>, m |-> <<>>, ms |-> <<>>]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
