------------------------------ MODULE HeaderGen ------------------------------
(* Generates received headers: a valid header of some message, then bit      *)
(* flips, byte substitutions, truncation or extension; also length bounds    *)
(* placed at / around the lengths of real messages.                          *)
EXTENDS Mavlink, TLC
VARIABLES h, maxlen, n
Init == /\ n = 0 /\ maxlen = -1
        /\ \E id \in Ids : h = <<STX, MetaLen[id], RandomElement(0..255), RandomElement(0..255), RandomElement(0..255), id>>
Flip == \E b \in {1, 2, 6} : \E k \in 0..7 : h' = [h EXCEPT ![b] = h[b] ^^ (2 ^ k)] /\ UNCHANGED maxlen
Subst == \E b \in 1..6 : h' = [h EXCEPT ![b] = RandomElement(0..255)] /\ UNCHANGED maxlen
Bound == \E id \in Ids : \E d \in {-1, 0, 1} : maxlen' = MaxOf(0, MetaLen[id] + d) /\ UNCHANGED h
BoundAtOwn == \E d \in {-1, 0} : h[6] \in Ids /\ maxlen' = MaxOf(0, MetaLen[h[6]] + d) /\ UNCHANGED h
Keep == UNCHANGED <<h, maxlen>>
Emit == /\ n = 4 /\ PrintT(<<"GEN", ToJson([h |-> h, maxlen |-> maxlen])>>) /\ UNCHANGED <<h, maxlen>>
Next == \/ n < 4 /\ n' = n + 1 /\ (Flip \/ Subst \/ Bound \/ BoundAtOwn \/ Keep)
        \/ Emit /\ n' = 5
=============================================================================
