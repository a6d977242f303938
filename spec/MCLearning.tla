------------------------------ MODULE MCLearning ------------------------------
(* Design check of the two-pass, learn-as-you-go decoder.  A transmission is  *)
(* abstracted to what matters for learning: does the first / second pass      *)
(* succeed, does each pass's estimate pass the message checksums, is it the    *)
(* true data.  Checksums do not lie (CrcSound) in the checked environment.     *)
(* The two models: A learns verified estimates only, B learns everything.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxT, W, MinData
VARIABLES t, A, B, last
vars == <<t, A, B, last>>
\* an outcome: the data learned is tagged with how trustworthy it is
Outcome == [ok1 : BOOLEAN, ok2 : BOOLEAN, crc1 : BOOLEAN, crc2 : BOOLEAN, true1 : BOOLEAN, true2 : BOOLEAN]
Env == {o \in Outcome : (o.crc1 => o.true1) /\ (o.crc2 => o.true2)}
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Push(s, x) == LastN(Append(s, x), W)
Init == t = 0 /\ A = <<>> /\ B = <<>> /\ last = [used |-> FALSE, final |-> 0]
Step(o) ==
  LET usedModel == ~o.ok1 /\ Len(A) > 0 /\ Len(A) >= MinData
      crc == IF o.ok1 THEN o.crc1 ELSE o.crc2
      tr == IF o.ok1 THEN o.true1 ELSE o.true2
      learnedA == [crc |-> crc, true |-> tr]
  IN /\ t < MaxT /\ t' = t + 1
     /\ A' = IF crc THEN Push(A, learnedA) ELSE A
     /\ B' = Push(B, IF o.ok1 \/ crc THEN learnedA ELSE [crc |-> FALSE, true |-> FALSE])
     /\ last' = [used |-> usedModel, final |-> IF o.ok1 THEN 1 ELSE 2]
Next == \E o \in Env : Step(o)
Spec == Init /\ [][Next]_vars
\* the verified model never contains wrong data as long as checksums do not lie
VerifiedModelIsTrue == \A i \in 1..Len(A) : A[i].true /\ A[i].crc
WindowInv == Len(A) <= W /\ Len(B) <= W
BSeesEverything == Len(B) = IF t < W THEN t ELSE W
NoEarlyRectification == last.used => t > MinData
\* a successful first pass is final
FirstPassFinal == [][\A o \in Env : (Step(o) /\ o.ok1) => ~last'.used /\ last'.final = 1]_vars
=============================================================================
