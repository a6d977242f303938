------------------------------- MODULE MCSigning -------------------------------
(* Design check of Signing against an adversary who owns the channel: honest *)
(* senders stamp their frames in increasing order; the adversary delivers    *)
(* any of them, in any order, any number of times, and invents frames it     *)
(* cannot sign.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Streams, MaxTs, MaxRecv
VARIABLES sent, r, log
S == INSTANCE Signing WITH Base <- 2, Slack <- <<1, 0>>
Stamp(n) == <<n \div 2, n % 2>>
Frames == [s : Streams, t : 0..MaxTs]
\* what the honest senders ever send; when does not matter, the adversary may hold anything back
Init == sent \in SUBSET Frames /\ r \in {S!NewReceiver(Stamp(n)) : n \in {0, MaxTs}} /\ log = <<>>
Deliver(f, auth) == /\ Len(log) < MaxRecv
   /\ log' = Append(log, [f |-> f, auth |-> auth, ok |-> S!Genuine(r, f.s, Stamp(f.t), auth), before |-> r])
   /\ r' = S!After(r, f.s, Stamp(f.t), auth)
   /\ UNCHANGED sent
Next == (\E f \in sent : Deliver(f, TRUE)) \/ (\E f \in Frames : Deliver(f, FALSE))
Spec == Init /\ [][Next]_<<sent, r, log>>
Accepted == {i \in 1..Len(log) : log[i].ok}
\* only what an honest sender sent
OnlyGenuine == \A i \in Accepted : log[i].auth /\ log[i].f \in sent
\* nothing twice, and per stream in the order sent
NoReplay == \A i, j \in Accepted : i < j /\ log[i].f.s = log[j].f.s => log[i].f.t < log[j].f.t
\* a forged frame has no effect at all
ForgeriesHarmless == \A i \in 1..Len(log) : ~log[i].ok => (IF i < Len(log) THEN log[i + 1].before ELSE r) = log[i].before
\* an honest frame delivered in order on a stream in use is accepted, whatever the adversary did before
NoBlocking == \A i \in 1..Len(log) : LET f == log[i].f
                 prev == {j \in Accepted : j < i /\ log[j].f.s = f.s} IN
   log[i].auth /\ prev # {} /\ (\A j \in prev : log[j].f.t < f.t) => log[i].ok
\* the stamp to send with next is the largest seen
Clock == \A i \in Accepted : ~S!Less(r.ts, Stamp(log[i].f.t))
=============================================================================
