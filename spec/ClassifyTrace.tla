----------------------------- MODULE ClassifyTrace -----------------------------
(* C18 labels, isolation and learning; C19 what the inner decoder is given.    *)
EXTENDS ClassifyDecoder, TraceBase
VARIABLES l, st, viol
\* st = [c, g (labels), ms (bit model per label)]
IsFreq(p, fr) == Len(p) = Len(fr) /\ \A i \in 1..Len(fr) : Abs(p[i] * fr[i][2] - 10000 * fr[i][1]) <= fr[i][2]
Reported(c, ms, e) ==
  IF e.lab < 0 THEN Need(e.p = <<>> /\ e.s = <<>>, "NothingReportedWhileTraining")
  ELSE LET fr == Fr(c, ms[e.lab + 1]) IN
       Need(ToSet(e.s) = {i - 1 : i \in Struct(fr, c.thr)}, "ReportedStructuralBits") \cup Need(IsFreq(e.p, fr), "ReportedDistribution")
Given(c, m, e) ==
  CASE e.lab < 0 /\ c.inner = "gal" -> Need(e.call = Hard(e.llr), "ChannelOnlyWhileTraining")
    [] e.lab < 0 /\ c.inner # "gal" -> Need(Close(e.call, Milli(e.llr), 0), "ChannelOnlyWhileTraining")
    [] e.lab >= 0 /\ c.inner = "spa" -> Need(Close(e.call, Soft(c, m, e.llr), 12), "ChannelPlusOwnModel")
    [] e.lab >= 0 /\ c.inner = "wbf" -> Need(Close(e.call, Balanced(c, m, e.llr), 25), "BalancedWithOwnModel")
                                        \cup Need(\A i \in 1..Len(e.prior) : e.prior[i] = 0, "NoPriorReliability")
    [] OTHER -> Need(GalOk(c, m, e.llr, e.call), "HardBitsWithOwnModel")
Decode(x, e) ==
  LET c == x.c   hb == HardOf(e.llr, c.m)
      ls == LabelStep(c, x.g, hb, e.lab)
      lab == IF ls.good THEN e.lab ELSE -1
      ms == LearnLabel(c, x.ms, lab, e.llr, e.r) IN
  IF ~e.ok THEN Verdict(x, Returned(e))
  ELSE Verdict([x EXCEPT !.g = ls.g, !.ms = ms],
       NeedI(ls.good, "Label", e.lab)
       \cup Need(e.ncalls = 1 /\ e.est = e.r.est /\ e.okk = e.r.ok /\ e.it = e.r.it /\ e.tag = e.r.tag
                 /\ e.soft = (c.inner = "spa"), "ReportsTheInnerResult")
       \cup (IF ls.good /\ e.lab < Len(x.ms) THEN Given(c, IF e.lab < 0 THEN NewBits(c.w) ELSE x.ms[e.lab + 1], e) \cup Reported(c, ms, e) ELSE {}))
Judge(x, e) ==
  CASE e.ev = "NewD" -> Verdict([c |-> e.c, g |-> NewLabels, ms |-> [j \in 1..e.c.kc |-> NewBits(e.c.w)]], Returned(e))
    [] e.ev = "Decode" -> Decode(x, e)
    [] e.ev = "BadLen" -> Verdict(x, Need(~e.ok /\ e.exc = "IncorrectBufferLength", "WrongLengthRejected"))
T == INSTANCE TraceLoop WITH InitState <- [c |-> <<>>, g |-> <<>>, ms |-> <<>>]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
