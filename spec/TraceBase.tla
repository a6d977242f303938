------------------------------ MODULE TraceBase ------------------------------
(* Every trace specification extends this module and defines                *)
(*   InitState       the specification state before the first event         *)
(*   Judge(s, e)     [st |-> next state, bad |-> set of [clause, key, info]] *)
(* The verdict is total: every recorded line is judged, failing clauses are *)
(* accumulated with their line number, and the verdict is printed at the end*)
EXTENDS Common, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NL == Len(Trace)

Fail(c, k) == [clause |-> c, key |-> k, info |-> ""]
FailI(c, k, i) == [clause |-> c, key |-> k, info |-> ToString(i)]
\* clause holds, or is reported
Need(cond, c) == IF cond THEN {} ELSE {Fail(c, "")}
NeedK(cond, c, k) == IF cond THEN {} ELSE {Fail(c, k)}
NeedI(cond, c, i) == IF cond THEN {} ELSE {FailI(c, "", i)}
Same(s) == [st |-> s, bad |-> {}]
Verdict(s, b) == [st |-> s, bad |-> b]
\* the call must have returned normally
Returned(e) == IF e.ok THEN {} ELSE {FailI("UnexpectedError:" \o e.ev, "", e.exc)}

MaxViol == 300
=============================================================================
