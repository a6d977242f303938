-------------------------------- MODULE MCTwins --------------------------------
(* Design check: why outputs are a function of the input history.  Callers own *)
(* buffers (cells of heap), reuse and overwrite them between calls.  Two twin   *)
(* instances learn from the buffers passed to them, interleaved arbitrarily.    *)
(*   Copy = TRUE   an instance keeps the value it was given                     *)
(*   Copy = FALSE  it keeps a reference (the defect the property excludes)      *)
EXTENDS Integers, FiniteSets, Determinism
CONSTANTS MaxCalls, Copy, Private
VARIABLES heap, kept, hist, memo, ok
vars == <<heap, kept, hist, memo, ok>>
Cells == {1, 2}
Inst == {"a", "b"}
Vals == {0, 1}
Init == heap = [c \in Cells |-> 0] /\ kept = [i \in Inst |-> <<>>] /\ hist = [i \in Inst |-> <<>>] /\ memo = NewMemo /\ ok = TRUE
Read(i) == [k \in 1..Len(kept[i]) |-> IF Copy THEN kept[i][k] ELSE heap[kept[i][k]]]
\* the answer depends on everything kept and on the present input
Call(i, c) ==
  LET hs == Append(hist[i], heap[c])
      out == <<Read(IF Private THEN i ELSE "a"), heap[c]>> IN
  /\ Len(hist[i]) < MaxCalls
  /\ hist' = [hist EXCEPT ![i] = hs]
  /\ kept' = [kept EXCEPT ![IF Private THEN i ELSE "a"] = Append(@, IF Copy THEN heap[c] ELSE c)]
  /\ ok' = (ok /\ Agrees(memo, "cfg", hs, out))
  /\ memo' = Record(memo, "cfg", hs, out)
  /\ UNCHANGED heap
Scribble(c, v) == heap' = [heap EXCEPT ![c] = v] /\ v # heap[c] /\ UNCHANGED <<kept, hist, memo, ok>>
Next == (\E i \in Inst, c \in Cells : Call(i, c)) \/ \E c \in Cells, v \in Vals : Scribble(c, v)
Spec == Init /\ [][Next]_vars
SameHistorySameOutput == ok
=============================================================================
