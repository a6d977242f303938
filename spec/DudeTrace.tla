------------------------------ MODULE DudeTrace ------------------------------
(* C25 online denoiser, C26 two-sided denoiser.                                *)
EXTENDS Dude, TraceBase
VARIABLES l, st, viol
\* st = [h, L, k, hard, o];  an answer is [est, cost (1e-3), p (1e-4, one per symbol)]
Channel(e) == IF e.u > 0 THEN Binary(e.u, e.v) ELSE Symmetric(e.a, e.q)
InUnit(p) == \A i \in 1..Len(p) : p[i] \in 0..10000
Soft2(L, p) == SumSeq([i \in 1..2 |-> SumSeq([j \in 1..2 |-> L[i][j] * ((p[i] * p[j]) \div 1000)])])   \* 1e-5 of p L p'
ByCounts(x, cnt, y, r) ==
  IF x.hard THEN NeedI(r.est + 1 \in Best(x.h, x.L, cnt, y), "MinimumExpectedLoss", r)
                 \cup NeedI(IsRatio(r.cost, Min(ToSet(Costs(x.h, x.L, cnt, y))), 8 * x.h.D, 1000, 2), "ReportedLoss", r)
  ELSE LET w == SmoothPost(x.h, cnt, y)  s == w[1] + w[2] IN
       NeedI(Len(r.p) = 2 /\ IsRatio(r.p[1], w[1], s, 10000, 2) /\ IsRatio(r.p[2], w[2], s, 10000, 2), "Posterior", r)
       \cup NeedI(Len(r.p) = 2 /\ InUnit(r.p) => Abs(r.cost * 100 - Soft2(x.L, r.p)) <= 100 + 60 * x.lmax, "ReportedLoss", r)
AsIs(x, y, r) ==
  IF x.hard THEN NeedI(r.est = y /\ r.cost = 0, "EdgeUnchanged", r)
  ELSE NeedI(r.p = [s \in 1..Len(x.h.P) |-> IF s = y + 1 THEN 10000 ELSE 0] /\ r.cost = 0, "EdgeUnchanged", r)
OneSample(x, o, y, r) == IF Warming(x.k, o) THEN AsIs(x, y, r) ELSE ByCounts(x, Basis(x.h, o, y), y, r)
RECURSIVE Walk(_, _, _, _)
Walk(x, o, ys, rs) == IF ys = <<>> THEN [o |-> o, bad |-> {}]
  ELSE LET w == Walk(x, Feed(x.h, x.k, o, Head(ys)), Tail(ys), Tail(rs)) IN [o |-> w.o, bad |-> OneSample(x, o, Head(ys), Head(rs)) \cup w.bad]
JSeq(x, e) == IF Len(e.rs) # Len(e.ys) THEN [o |-> x.o, bad |-> {Fail("SameLength", "")}] ELSE Walk(x, x.o, e.ys, e.rs)
JTwo(x, e) ==
  LET n == Len(e.ys)  k == x.k  In == (k + 1)..(n - k)
      cost(i) == LET c == CountsAround(x.h, e.ys, k, i) IN
                 IF x.hard THEN (1000 * Min(ToSet(Costs(x.h, x.L, c, e.ys[i])))) \div (8 * x.h.D) ELSE IF InUnit(e.rs[i].p) THEN Soft2(x.L, e.rs[i].p) \div 100 ELSE 0
  IN IF Len(e.rs) # n THEN {Fail("SameLength", "")}
     ELSE UNION {IF i \in In
                 THEN LET c == CountsAround(x.h, e.ys, k, i) y == e.ys[i] r == e.rs[i] IN
                      IF x.hard THEN NeedI(r.est + 1 \in Best(x.h, x.L, c, y), "MinimumExpectedLoss", <<i, r>>)
                      ELSE LET w == SmoothPost(x.h, c, y) s == w[1] + w[2] IN NeedI(IsRatio(r.p[1], w[1], s, 10000, 2) /\ IsRatio(r.p[2], w[2], s, 10000, 2), "Posterior", <<i, r>>)
                 ELSE AsIs(x, e.ys[i], [e.rs[i] EXCEPT !.cost = 0]) : i \in 1..n}
          \cup NeedI(Abs(e.cost) < 1000000 /\ Abs(e.cost * n - SumSeq([i \in 1..n |-> IF i \in In THEN cost(i) ELSE 0])) <= (4 + 2 * x.lmax) * n, "MeanLoss", e.cost)
Judge(x, e) ==
  CASE e.ev = "New" -> Verdict([h |-> Channel(e), L |-> e.L, k |-> e.k, hard |-> e.hard, o |-> NewOnline, lmax |-> Max(UNION {ToSet(e.L[i]) : i \in 1..Len(e.L)})], Returned(e))
    [] e.ev = "Sample" -> Verdict([x EXCEPT !.o = Feed(x.h, x.k, x.o, e.y)], Returned(e) \cup (IF e.ok THEN OneSample(x, x.o, e.y, e.r) ELSE {}))
    [] e.ev = "Seq" -> IF ~e.ok THEN Verdict(x, Returned(e)) ELSE LET w == JSeq(x, e) IN Verdict([x EXCEPT !.o = w.o], w.bad)
    [] e.ev = "Bad" -> Verdict(x, Need(~e.ok /\ e.exc = "ValueError", "UnknownSymbolRejected"))
    [] e.ev = "Init" -> IF Len(e.ctx) = x.k THEN Verdict([x EXCEPT !.o.ctx = e.ctx], Returned(e)) ELSE Verdict(x, Need(~e.ok /\ e.exc = "ValueError", "WrongContextLengthRejected"))
    [] e.ev = "Reset" -> Verdict([x EXCEPT !.o = NewOnline], Returned(e))
    [] e.ev = "Two" -> Verdict(x, Returned(e) \cup (IF e.ok THEN JTwo(x, e) ELSE {}))
T == INSTANCE TraceLoop WITH InitState <- <<>>
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
