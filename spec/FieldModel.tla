------------------------------ MODULE FieldModel ------------------------------
(* One telemetry field: a sliding window of samples.  Abstract state          *)
(*   f = [w |-> window (0: unbounded), xs |-> samples, oldest first]           *)
(* A sample is [v |-> integer, fin |-> finite?].                               *)
EXTENDS Num
NewField(w) == [w |-> w, xs |-> <<>>]
AddSamples(f, vs) == [f EXCEPT !.xs = IF f.w = 0 THEN f.xs \o vs ELSE LastN(f.xs \o vs, f.w)]
Finite(f) == LET g == SelectSeq(f.xs, LAMBDA x : x.fin) IN [i \in 1..Len(g) |-> g[i].v]
Val(v) == [v |-> v, fin |-> TRUE]
\* the value's two-sided tail probability under the fitted Gaussian, as an admissible-result predicate
\* p6: reported probability in 1e-6; exact flags tell whether the reported number is exactly 0 / 1
ClassifyIs(f, x, p6, d100) ==
  LET s == Finite(f) IN
  /\ StdIs(s, d100)
  /\ IF s = <<>> \/ NVar(s) = 0
     THEN p6 = (IF x.fin /\ (IF s = <<>> THEN x.v = 0 ELSE x.v * Len(s) = SumSeq(s)) THEN 1000000 ELSE 0)
     ELSE IF ~x.fin THEN p6 = 0
     ELSE TailIs(s, x.v, p6)
=============================================================================
