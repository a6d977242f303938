-------------------------------- MODULE MCDude --------------------------------
(* Design check of the denoiser: counting is complete and exact, the channel   *)
(* inversion is right, and over a noiseless channel data passes unchanged.     *)
EXTENDS Dude, TLC
CONSTANTS MaxLen, K, A
VARIABLES ys, o
vars == <<ys, o>>
H == Symmetric(A, 1)
H0 == Symmetric(A, 0)
L01 == [x \in 1..A |-> [j \in 1..A |-> IF x = j THEN 0 ELSE 1]]
Init == ys = <<>> /\ o = NewOnline
Next == Len(ys) < MaxLen /\ \E y \in 0..(A - 1) : ys' = Append(ys, y) /\ o' = Feed(H, K, o, y)
Spec == Init /\ [][Next]_vars
ASSUME \A a \in 2..3, q \in 0..2 : (8 - a * q > 0) => IsInverse(Symmetric(a, q))
ASSUME \A u, v \in 1..8 : u + v > 8 => IsInverse(Binary(u, v))
Total(n) == SumSeq(SetToSeq({0}) \o [i \in 1..Cardinality(DOMAIN n) |-> SumSeq(n[SetToSeq(DOMAIN n)[i]])])
CountsComplete == Total(o.n) = IF Len(ys) > K THEN Len(ys) - K ELSE 0
ContextIsRecent == o.ctx = IF Len(ys) <= K THEN ys ELSE SubSeq(ys, Len(ys) - K + 1, Len(ys))
CountsExact == \A c \in DOMAIN o.n : \A x \in 1..A :
   o.n[c][x] = Cardinality({i \in (K + 1)..Len(ys) : SubSeq(ys, i - K, i - 1) = c /\ ys[i] = x - 1})
NoiselessIsIdentity == \A i \in (K + 1)..(Len(ys) - K) : ys[i] + 1 \in Best(H0, L01, CountsAround(H0, ys, K, i), ys[i])
\* the estimated clean counts add up to the number of observations
MassPreserved == \A c \in DOMAIN o.n : SumSeq(Clean(H, o.n[c])) = H.D * SumSeq(o.n[c])
SoftIsPositive == A = 2 => \A c \in DOMAIN o.n, y \in 0..1 : o.n[c][y + 1] > 0 => LET p == SmoothPost(H, o.n[c], y) IN p[1] > 0 /\ p[2] > 0
=============================================================================
