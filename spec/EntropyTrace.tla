----------------------------- MODULE EntropyTrace -----------------------------
(* C14 learning gate, C15 rectification, C16 bit flipping, C17 weighted.      *)
EXTENDS EntropyDecoder, TraceBase
VARIABLES l, st, viol
\* state: [c |-> configuration, s |-> learned state]
J(e, b) == Returned(e) \cup (IF e.ok THEN b ELSE {})
\* what every one of them owes its caller: the first pass is offered first, its success is final; otherwise the second pass's result
Contract(e) ==
  LET f == Final(e.r) IN
  NeedI(Len(e.calls) = (IF e.r[1].ok THEN 1 ELSE 2), "SecondPassOnlyAfterFailure", Len(e.calls))
  \cup Need(e.est = f.est /\ e.okk = f.ok /\ e.it = f.it /\ e.llrtag = f.tag, "ReportsTheDecidingPass")
Msgs(c, e) == NeedI(e.nm = MessageCount(ModelBits(c, Final(e.r).est)), "MessageCount", e.nm)
IsFreq(p, fr) == Len(p) = Len(fr) /\ \A i \in 1..Len(fr) : Abs(p[i] * fr[i][2] - 10000 * fr[i][1]) <= fr[i][2]
Decode(x, e) ==
  LET c == x.c IN
  CASE c.kind = "entropy" ->
        [st |-> [x EXCEPT !.s = LearnFull(c, x.s, Final(e.r).est)],
         bad |-> J(e, Contract(e) \cup Msgs(c, e)
                 \cup Need(e.calls # <<>> /\ Close(e.calls[1], Milli(e.llr), 0), "FirstPassSeesTheChannel")
                 \cup (IF Len(e.calls) = 2 THEN Need(Close(e.calls[2], Rectify(c, x.s, e.llr), 3), "SecondPassSeesChannelPlusModel") ELSE {}))]
    [] c.kind = "flip" ->
        [st |-> [x EXCEPT !.s = LearnFull(c, x.s, Final(e.r).est)],
         bad |-> J(e, Contract(e) \cup Msgs(c, e)
                 \cup Need(e.calls # <<>> /\ e.calls[1] = e.llr, "FirstPassSeesTheChannel")
                 \cup (IF Len(e.calls) = 2 THEN Need(e.calls[2] = Flip(c, x.s, e.llr), "SecondPassSeesStructuralBitsForced") ELSE {}))]
    [] c.kind = "weighted" ->
        LET n == LearnWeighted(c, x.s, e.llr, e.r)
            fa == FreqOf(c, n.a)   fb == FreqOf(c, n.b)  IN
        [st |-> [x EXCEPT !.s = n],
         bad |-> J(e, Contract(e) \cup Msgs(c, e)
                 \cup Need(e.calls # <<>> /\ Close(e.calls[1], Milli(e.llr), 0), "FirstPassSeesTheChannel")
                 \cup (IF Len(e.calls) = 2 THEN Need(Close(e.calls[2], RectifyWeighted(c, x.s, e.llr), c.tol), "SecondPassSeesChannelPlusModels") ELSE {})
                 \cup Need(ToSet(e.sa) = {i - 1 : i \in Struct(fa, c.thr)} /\ ToSet(e.sb) = {i - 1 : i \in Struct(fb, c.thr)}, "ReportedStructuralBits")
                 \cup Need(IsFreq(e.pa, fa) /\ IsFreq(e.pb, fb), "ReportedDistributions"))]
Judge(x, e) ==
  CASE e.ev = "NewD" -> Verdict([c |-> e.c, s |-> IF e.c.kind = "weighted" THEN [a |-> NewBits(e.c.w), b |-> NewBits(e.c.w)] ELSE NewBits(e.c.w)], Returned(e))
    [] e.ev = "Decode" -> Decode(x, e)
    [] e.ev = "BadLen" -> Verdict(x, Need(~e.ok /\ e.exc = "IncorrectBufferLength", "WrongLengthRejected"))
T == INSTANCE TraceLoop WITH InitState <- [c |-> [kind |-> "none"], s |-> <<>>]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
