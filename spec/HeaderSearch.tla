----------------------------- MODULE HeaderSearch -----------------------------
(* Design model of the nearest-valid-header search over an arbitrary small   *)
(* dialect: visit the messages one by one, keep the best admissible          *)
(* candidate, stop early once nothing can be better.                         *)
(* Checked: the search returns the true minimum over the admissible          *)
(* messages, for every dialect, every received pair and every length bound.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W            \* bytes are 0..(2^W - 1)
VARIABLES dialect,     \* sequence of <<id, len>>, the iteration order
          rx,          \* received <<len, id>>
          maxlen,      \* -1: no bound
          pos, best, chosen, done
vars == <<dialect, rx, maxlen, pos, best, chosen, done>>
Byte == 0..(2 ^ W - 1)
Bit(x, i) == (x \div (2 ^ i)) % 2
Ham(a, b) == Cardinality({i \in 0..(W - 1) : Bit(a, i) # Bit(b, i)})
None == 2 * W + 1
Dist(m) == Ham(m[2], rx[1]) + Ham(m[1], rx[2])
Admissible(m) == maxlen < 0 \/ m[2] <= maxlen
Dialects == {<<<<a, x>>, <<b, y>>>> : a \in Byte, b \in Byte, x \in Byte, y \in Byte}
            \cup {<<<<a, x>>>> : a \in Byte, x \in Byte}
Init == /\ dialect \in {d \in Dialects : \A i, j \in 1..Len(d) : i # j => d[i][1] # d[j][1]}
        /\ rx \in Byte \X Byte
        /\ maxlen \in {-1} \cup Byte
        /\ pos = 1 /\ best = None /\ chosen = -1 /\ done = FALSE
Visit == /\ ~done /\ pos <= Len(dialect)
         /\ LET m == dialect[pos]
                better == Dist(m) < best /\ Admissible(m)
            IN /\ best' = IF better THEN Dist(m) ELSE best
               /\ chosen' = IF better THEN m[1] ELSE chosen
         /\ pos' = pos + 1
         /\ done' = (best' = 0)             \* early exit only on an *accepted* perfect match
         /\ UNCHANGED <<dialect, rx, maxlen>>
Finish == /\ ~done /\ pos > Len(dialect) /\ done' = TRUE
          /\ UNCHANGED <<dialect, rx, maxlen, pos, best, chosen>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
Adm == {i \in 1..Len(dialect) : Admissible(dialect[i])}
TrueMin == done => IF Adm = {} THEN chosen = -1 /\ best = None
                   ELSE /\ \A i \in Adm : best <= Dist(dialect[i])
                        /\ \E i \in Adm : dialect[i][1] = chosen /\ Dist(dialect[i]) = best
=============================================================================
