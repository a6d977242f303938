---------------------------- MODULE MCFieldModel ----------------------------
(* Design check of the lazily refreshed field model: samples arrive one by    *)
(* one or in lists, statistics are recomputed only when stale.  The           *)
(* implementation-shaped state (samples, cached sum/count, fresh flag) must   *)
(* answer every query exactly like the abstract window over the history.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxAdds, W, Vals
VARIABLES hist,      \* every sample ever added
          samples, cached, fresh, answer
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
vars == <<hist, samples, cached, fresh, answer>>
Trim(s) == IF W = 0 \/ Len(s) <= W THEN s ELSE SubSeq(s, Len(s) - W + 1, Len(s))
Stat(s) == <<SumSeq(s), Len(s)>>
Init == hist = <<>> /\ samples = <<>> /\ cached = <<0, 0>> /\ fresh = FALSE /\ answer = <<0, 0>>
Add(vs) == /\ Len(hist) + Len(vs) <= MaxAdds
           /\ hist' = hist \o vs /\ samples' = Trim(samples \o vs) /\ fresh' = FALSE
           /\ UNCHANGED <<cached, answer>>
Query == LET c == IF fresh \/ samples = <<>> THEN cached ELSE Stat(samples) IN
         /\ cached' = c /\ fresh' = (samples # <<>>) /\ answer' = c /\ UNCHANGED <<hist, samples>>
Next == (\E v \in Vals : Add(<<v>>)) \/ (\E v, u \in Vals : Add(<<v, u>>)) \/ Query
Spec == Init /\ [][Next]_vars
Window == IF W = 0 THEN hist ELSE LastN(hist, W)
WindowInv == samples = Window
FreshInv == fresh => cached = Stat(Window)
QueryExact == [][(UNCHANGED hist /\ answer' # answer) => answer' = Stat(Window)]_vars
SizeInv == W # 0 => Len(samples) <= W
=============================================================================
