----------------------------- MODULE DudeDecTrace -----------------------------
(* C27 the DUDE decoder; C28 the entropy aided maximum likelihood denoiser;    *)
(* C30 turbo iteration between a telemetry decoder and a code decoder.         *)
EXTENDS DudeDecoder, TraceBase
VARIABLES l, st, viol
\* ---- C27: st = [c, g, ds] ---------------------------------------------------
Decode(x, e) ==
  LET c == x.c  h == Symmetric(2, c.q)  hb == HardOf(e.llr, c.m)  ls == LabelStep(c, x.g, hb, e.lab) IN
  IF ~e.ok THEN Verdict(x, Returned(e))
  ELSE IF ~ls.good \/ e.lab >= c.kc THEN Verdict(x, {FailI("Label", "", e.lab)})
  ELSE LET res == Need(e.ncalls = 1 /\ e.est = e.r.est /\ e.okk = e.r.ok /\ e.it = e.r.it /\ e.tag = e.r.tag, "ReportsTheInnerResult")
                  \cup Need(e.den = e.neg, "DenoisedBitsAreThoseDecoded") IN
       IF e.lab < 0 THEN Verdict([x EXCEPT !.g = ls.g], res \cup Need(Close(e.call, Milli(e.llr), 0), "ChannelOnlyWhileTraining"))
       ELSE LET d == x.ds[e.lab + 1] IN
            Verdict([x EXCEPT !.g = ls.g, !.ds[e.lab + 1] = FeedAll(c, h, d, hb)],
                    res \cup Need(Close(e.call, Denoised(c, h, d, e.llr), 12), "ChannelPlusOwnDenoiser"))
\* ---- C28: st = [c, m] -------------------------------------------------------
\* input in 1e-3: soft words are given, hard bits become the channel's llr
InLlr(c, e) == IF c.softin THEN Milli(e.x) ELSE LET a == Tab.lnint[8 - c.q] - Tab.lnint[c.q] IN [i \in 1..Len(e.x) |-> IF e.x[i] = 1 THEN -a ELSE a]
InBits(c, e) == IF c.softin THEN Hard(e.x) ELSE e.x
Emle(c, m, x) ==
  LET fr == Fr(c, m)  str == Struct(fr, c.thr)  cf == Confidence(Size(m), c.cc, c.s20) IN
  [i \in 1..Len(x) |-> IF i \in str THEN x[i] + (cf * Lln(fr[i])) \div 10000 ELSE x[i]]
JBuf(c, m, e, r) ==
  LET hb == InBits(c, e)  want == Emle(c, m, InLlr(c, e))
      sign(i) == r.neg[i] = (IF want[i] < 0 THEN 1 ELSE 0) \/ (Abs(want[i]) <= 12 /\ r.neg[i] \in {0, 1}) IN
  IF Len(r.neg) # Len(want) THEN {Fail("SameLength", "")}
  ELSE (IF c.hard THEN {} ELSE Need(Close(r.v, want, 12), "ChannelPlusModel"))
       \cup Need(\A i \in 1..Len(want) : sign(i), "EstimatedBits")
       \cup NeedI(r.cost = HamBits(hb, r.neg), "CostIsNumberOfChangedBits", r.cost)
RECURSIVE JRows(_, _, _, _)
JRows(c, m, rows, rs) == IF rows = <<>> THEN [m |-> m, bad |-> {}]
  ELSE LET w == JRows(c, LearnBits(m, InBits(c, Head(rows))), Tail(rows), Tail(rs)) IN
       [m |-> w.m, bad |-> JBuf(c, m, Head(rows), Head(rs)) \cup w.bad]
JEmle(x, e) == IF Len(e.rs) # Len(e.rows) THEN [m |-> x.m, bad |-> {Fail("SameLength", "")}] ELSE JRows(x.c, x.m, e.rows, e.rs)
JState(x, e) == NeedI(e.size = Size(x.m), "ModelSize", e.size)
   \cup LET fr == Fr(x.c, x.m) IN Need(Len(e.p) = Len(fr) /\ \A i \in 1..Len(fr) : Abs(e.p[i] * fr[i][2] - 10000 * fr[i][1]) <= fr[i][2], "Distribution")
\* ---- C30: channel in eighths; scripted soft outputs in eighths --------------
\* calls alternate first, second, first, ...; prior of each is what the other learned beyond channel and its own prior
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
RECURSIVE Turns(_, _, _, _, _)
Turns(e, i, prior, bad, who) ==
  \* i-th inner call (1-based), prior: extrinsic added to the channel for this call
  LET given == [j \in 1..Len(e.llr) |-> e.llr[j] + prior[j]]  r == e.r[i]
      b == bad \cup NeedI(e.calls[i] = given /\ e.who[i] = who, IF who = 1 THEN "FirstDecoderInput" ELSE "SecondDecoderInput", i)
  IN IF r.ok \/ i = 2 * e.maxit THEN [n |-> i, bad |-> b, who |-> who]
     ELSE IF Len(e.calls) = i THEN [n |-> i + 1, bad |-> b, who |-> who]
     ELSE Turns(e, i + 1, Sub(Sub(r.llr, e.llr), prior), b, 3 - who)
JTurbo(e) ==
  LET t == Turns(e, 1, [j \in 1..Len(e.llr) |-> 0], {}, 1) IN
  IF t.n # Len(e.calls) THEN t.bad \cup {FailI("AlternatesUntilSuccess", "", Len(e.calls))}
  ELSE LET r == e.r[t.n] IN
       t.bad \cup Need(e.est = r.est /\ e.out = r.llr /\ e.okk = r.ok /\ e.dec = t.who, "ReportsTheDecidingResult")
       \cup NeedI(e.err = (IF e.debug /\ ~r.ok THEN HamBits(e.sent, r.est) ELSE 0), "ReportedErrors", e.err)
Judge(x, e) ==
  CASE e.ev = "NewD" -> Verdict([c |-> e.c, g |-> NewLabels, ds |-> [j \in 1..e.c.kc |-> NewDudes(e.c)]], Returned(e))
    [] e.ev = "Decode" -> Decode(x, e)
    [] e.ev = "NewE" -> Verdict([c |-> e.c, m |-> NewBits(e.c.w)], Returned(e))
    [] e.ev = "Rows" -> IF ~e.ok THEN Verdict(x, Returned(e)) ELSE LET w == JEmle(x, e) IN Verdict([x EXCEPT !.m = w.m], w.bad)
    [] e.ev = "State" -> Verdict(x, Returned(e) \cup (IF e.ok THEN JState(x, e) ELSE {}))
    [] e.ev = "Reset" -> Verdict([x EXCEPT !.m = NewBits(x.c.w)], Returned(e))
    [] e.ev = "Turbo" -> Verdict(x, Returned(e) \cup (IF e.ok THEN JTurbo(e) ELSE {}))
T == INSTANCE TraceLoop WITH InitState <- <<>>
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
