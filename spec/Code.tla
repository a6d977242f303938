--------------------------------- MODULE Code ---------------------------------
(* A binary linear code given by its parity checks: H is a sequence of checks, *)
(* each the sequence of (1-based) bit positions it covers.                     *)
EXTENDS Common
Parity(w, chk) == FoldLeft(LAMBDA a, j : a + w[j], 0, chk) % 2
Syndrome(H, w) == [i \in 1..Len(H) |-> Parity(w, H[i])]
IsCodeword(H, w) == \A i \in 1..Len(H) : Parity(w, H[i]) = 0
\* for each bit, how many of its checks fail
FailedChecks(H, n, syn) == LET bad == {i \in 1..Len(H) : syn[i] # 0}  s == [i \in bad |-> ToSet(H[i])] IN
  [j \in 1..n |-> Cardinality({i \in bad : j \in s[i]})]
IsWord(w, n) == Len(w) = n /\ \A i \in 1..n : w[i] \in {0, 1}
=============================================================================
