------------------------------ MODULE SystemTrace ------------------------------
(* C20: complete decoders over a real LDPC decoder.                            *)
(*  c.kind, c.inner, n, k, m sizes; c.two first tries the plain word;          *)
(*  c.min buffers of a label (or in all) needed before recovery is promised    *)
(*  (0: never); c.fields recovery only of field bits                           *)
EXTENDS Code, Recovery, TraceBase
VARIABLES l, st, viol
Hb(e) == [i \in 1..Len(e.llr) |-> IF e.llr[i] < 0 THEN 1 ELSE 0]
\* the word every buffer so far was decoded to (<<>>: none yet), or impure
Pure(x, e) == x.pure /\ (x.word = <<>> \/ x.word = e.sent)
Cnt(x, lab) == IF lab \in DOMAIN x.cnt THEN x.cnt[lab] ELSE 0
JWord(x, e) ==
  LET c == x.c  H == x.H  cw == IsCodeword(H, e.est)
      syn == IF cw THEN [i \in 1..Len(H) |-> 0] ELSE Syndrome(H, e.est) IN
  Need(c.inner = "spa" => e.okk = cw, "SuccessExactlyForCodewords")
  \cup Need(e.okk => cw, "SuccessMeansCodeword")
  \cup Need(e.neg = <<>> \/ e.neg = e.est, "SoftOutputAgreesWithEstimate")
  \cup Need((c.inner = "spa") => e.neg # <<>>, "SoftOutputGiven")
  \cup Need((e.syn # <<>> /\ c.inner = "spa") => e.syn = syn, "SyndromeOfTheEstimate")
  \cup Need((e.vv # <<>> /\ c.inner = "spa") => e.vv = FailedChecks(H, c.n, syn), "FailedChecksPerBit")
\* every apparent message of the received bits is a true one
NoFalseMessage(c, hb, sent) == LET v == ValidBits(SubSeq(hb, 1, c.k)) IN \A i \in 1..Len(v) : v[i] => hb[i] = sent[i]
JGuarantee(x, e) ==
  LET c == x.c  hb == Hb(e)  good == e.okk /\ e.est = e.sent
      intact == FullyRecovered(SubSeq(e.sent, 1, c.k))
      clean == hb = e.sent
      F == ToSet(e.fb)
      covered == \A i \in 1..c.n : hb[i] # e.sent[i] => (i <= c.m /\ (c.fields => i \in F))
  IN Need((clean /\ (c.two \/ Pure(x, e) \/ (c.kind = "mav" /\ intact))) => good, "CleanWordSurvives")
     \cup Need((c.two /\ e.plok) => (e.okk /\ e.est = e.plain), "NeverWorseThanPlainDecoding")
     \cup Need((c.min > 0 /\ Pure(x, e) /\ Cnt(x, e.lab) >= c.min /\ covered /\ intact /\ (c.two => ~e.plok) /\ NoFalseMessage(c, hb, e.sent)) => good, "LearnedTelemetryIsRecovered")
Step(x, e) ==
  LET p == x.pure /\ e.okk /\ (x.word = <<>> \/ e.est = x.word) /\ (x.c.kind = "dude" => SubSeq(Hb(e), 1, x.c.m) = SubSeq(e.est, 1, x.c.m)) IN
  [x EXCEPT !.pure = p, !.word = e.est, !.cnt = IF e.lab < 0 THEN @ ELSE (e.lab :> (Cnt(x, e.lab) + 1)) @@ @]
Decode(x, e) ==
  IF ~e.ok THEN Verdict(x, Returned(e))
  ELSE IF ~IsWord(e.est, x.c.n) THEN Verdict(x, {FailI("EstimateIsAWord", "", Len(e.est))})
  ELSE Verdict(Step(x, e), JWord(x, e) \cup JGuarantee(x, e))
Judge(x, e) ==
  CASE e.ev = "NewD" -> Verdict([c |-> e.c, H |-> e.H, pure |-> TRUE, word |-> <<>>, cnt |-> [j \in {} |-> 0]], Returned(e))
    [] e.ev = "Decode" -> Decode(x, e)
T == INSTANCE TraceLoop WITH InitState <- 0
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
