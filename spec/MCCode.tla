-------------------------------- MODULE MCCode --------------------------------
(* Design check of decoding with learned redundancy around an arbitrary inner *)
(* decoder.  All that is assumed of the inner decoder is its contract: it      *)
(* reports success exactly for codewords, and returns a codeword unchanged.    *)
(* What it returns otherwise is chosen by TLC, also wrong codewords.           *)
(* Info words in Intact carry verifiable messages.  Model: the last W learned  *)
(* info words; a bit on which they agree is structural.                        *)
(*   Two = TRUE   try the channel word, rectify only after a failure, learn    *)
(*                verified results                                             *)
(*   Two = FALSE  rectify first, learn result on success, channel otherwise    *)
EXTENDS Code
CONSTANTS MaxT, W, MinData, Two
VARIABLES t, mem, last, pure
vars == <<t, mem, last, pure>>
\* [6,3]: p1 = i1+i2, p2 = i2+i3, p3 = i1+i3
H == <<<<1, 2, 4>>, <<2, 3, 5>>, <<1, 3, 6>>>>
N == 6  K == 3
Words == [1..N -> {0, 1}]
Codewords == {w \in Words : IsCodeword(H, w)}
Info(w) == SubSeq(w, 1, K)
Intact == {<<0, 1, 1>>, <<1, 0, 1>>}
Inner(x) == IF IsCodeword(H, x) THEN {[est |-> x, ok |-> TRUE]} ELSE {[est |-> e, ok |-> IsCodeword(H, e)] : e \in Codewords \cup {x}}
Push(s, x) == LastN(Append(s, x), W)
Structural(m) == {i \in 1..K : \A a, b \in 1..Len(m) : m[a][i] = m[b][i]}
Rectify(m, x) == IF Len(m) = 0 \/ Len(m) < MinData THEN x
                 ELSE [i \in 1..N |-> IF i \in Structural(m) THEN m[1][i] ELSE x[i]]
\* pure: the word all buffers so far were decoded to
IMPURE == <<2>>
NONE == [sent |-> <<>>, recv |-> <<>>, plain |-> [est |-> <<>>, ok |-> FALSE], r |-> [est |-> <<>>, ok |-> FALSE], mem |-> <<>>, pure |-> <<>>]
Init == t = 0 /\ mem = <<>> /\ last = NONE /\ pure = <<>>
Sent == {w \in Codewords : Info(w) \in Intact}
\* errors: none, one anywhere, any in the info bits
Noise(s) == {w \in Words : \/ HamBits(w, s) <= 1 \/ \A i \in (K + 1)..N : w[i] = s[i]}
Decode(s, x) ==
  /\ t < MaxT /\ t' = t + 1
  /\ \E p \in Inner(x) : \E r \in IF Two /\ p.ok THEN {p} ELSE Inner(Rectify(mem, x)) :
       /\ last' = [sent |-> s, recv |-> x, plain |-> p, r |-> r, mem |-> mem, pure |-> pure]
       /\ mem' = IF Two THEN (IF Info(r.est) \in Intact THEN Push(mem, Info(r.est)) ELSE mem)
                 ELSE Push(mem, IF r.ok THEN Info(r.est) ELSE Info(x))
       /\ pure' = IF r.ok /\ pure \in {<<>>, r.est} THEN r.est ELSE IMPURE
Next == \E s \in Sent : \E x \in Noise(s) : Decode(s, x)
Done == last.sent # <<>>
SuccessMeansCodeword == Done => (last.r.ok <=> IsCodeword(H, last.r.est))
CleanWordSurvives == (Done /\ last.recv = last.sent /\ (Two \/ last.pure \in {<<>>, last.sent})) => last.r = [est |-> last.sent, ok |-> TRUE]
NeverWorseThanPlain == (Done /\ Two /\ last.plain.ok) => last.r = last.plain
Recovers == (Done /\ (Two => ~last.plain.ok) /\ Len(last.mem) >= MaxOf(1, MinData) /\ last.pure \in {<<>>, last.sent}
             /\ \A i \in (K + 1)..N : last.recv[i] = last.sent[i]) => last.r = [est |-> last.sent, ok |-> TRUE]
LearnsOnlyIntact == Two => \A i \in 1..Len(mem) : mem[i] \in Intact
WindowKept == Len(mem) <= W
Good == SuccessMeansCodeword /\ CleanWordSurvives /\ NeverWorseThanPlain /\ Recovers
Guarantees == [][Good']_vars
\* the outcome matters to the step that produced it only
View == <<t, mem, pure>>
Spec == Init /\ [][Next]_vars
=============================================================================
