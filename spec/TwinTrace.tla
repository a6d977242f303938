------------------------------- MODULE TwinTrace -------------------------------
(* C21: outputs are a function of configuration and input history; inputs       *)
(* belong to the caller.  i instance, cfg / inp / out / after value digests.     *)
EXTENDS Determinism, TraceBase
VARIABLES l, st, viol
\* x = [inst |-> instance -> [cfg, hist], memo]
New(x, e) == IF e.fresh THEN [inst |-> (e.i :> [cfg |-> e.cfg, hist |-> <<>>]), memo |-> NewMemo]
             ELSE [x EXCEPT !.inst = (e.i :> [cfg |-> e.cfg, hist |-> <<>>]) @@ @]
Call(x, e) ==
  LET s == x.inst[e.i]  h == Append(s.hist, e.inp)  out == IF e.ok THEN e.out ELSE "raised " \o e.exc IN
  Verdict([inst |-> (e.i :> [s EXCEPT !.hist = h]) @@ x.inst, memo |-> Record(x.memo, s.cfg, h, out)],
          NeedI(Agrees(x.memo, s.cfg, h, out), "SameHistorySameOutput", <<e.what, Len(h), out>>)
          \cup NeedI(e.after = e.inp, "InputLeftAlone", e.what)
          \cup Returned(e))
Judge(x, e) ==
  CASE e.ev = "New" -> Verdict(New(x, e), Returned(e))
    [] e.ev = "Call" -> Call(x, e)
T == INSTANCE TraceLoop WITH InitState <- 0
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
