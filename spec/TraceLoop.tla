------------------------------ MODULE TraceLoop ------------------------------
(* The driver loop of a trace specification.  Instantiated (not extended)   *)
(* with the trace module's InitState and Judge.                             *)
EXTENDS TraceBase
CONSTANTS InitState, Judge(_, _)
VARIABLES l, st, viol

LoopInit == l = 1 /\ st = InitState /\ viol = <<>>
LoopNext ==
  \/ /\ l <= NL
     /\ LET r == Judge(st, Trace[l]) IN
          /\ st' = r.st
          /\ viol' = IF r.bad = {} \/ Len(viol) > MaxViol THEN viol
                     ELSE viol \o SetToSeq({[l |-> l, clause |-> b.clause, key |-> b.key, info |-> b.info] : b \in r.bad})
     /\ l' = l + 1
  \/ /\ l = NL + 1
     /\ PrintT(<<"VERDICT", ToJson([lines |-> NL, viol |-> viol])>>)
     /\ l' = l + 1
     /\ UNCHANGED <<st, viol>>
=============================================================================
