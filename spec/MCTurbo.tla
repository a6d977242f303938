-------------------------------- MODULE MCTurbo --------------------------------
(* Design check of the turbo exchange: extrinsic information only.  Each       *)
(* constituent, given channel + prior, outputs channel + prior + own opinion;  *)
(* the other's next prior must be exactly that opinion - never the channel or  *)
(* its own contribution fed back.                                              *)
EXTENDS Integers
CONSTANTS MaxRound, Opinions
VARIABLES chan, prior1, prior2, op1, op2, round, turn, done, who
vars == <<chan, prior1, prior2, op1, op2, round, turn, done, who>>
Init == chan \in Opinions /\ prior1 = 0 /\ prior2 = 0 /\ op1 = 0 /\ op2 = 0 /\ round = 0 /\ turn = 1 /\ done = FALSE /\ who = 0
First == /\ ~done /\ turn = 1 /\ round < MaxRound
         /\ \E d \in Opinions, ok \in BOOLEAN :
              LET out == chan + prior1 + d IN
              /\ op1' = d /\ who' = 1 /\ done' = ok
              /\ prior2' = IF ok THEN prior2 ELSE out - chan - prior1
         /\ turn' = 2 /\ UNCHANGED <<chan, prior1, op2, round>>
Second == /\ ~done /\ turn = 2
          /\ \E d \in Opinions, ok \in BOOLEAN :
               LET out == chan + prior2 + d IN
               /\ op2' = d /\ who' = 2
               /\ done' = (ok \/ round + 1 = MaxRound)
               /\ prior1' = out - chan - prior2
          /\ turn' = 1 /\ round' = round + 1 /\ UNCHANGED <<chan, prior2, op1>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars
ExtrinsicOnly == (turn = 2 /\ ~done => prior2 = op1) /\ (turn = 1 /\ round > 0 => prior1 = op2)
FailureIsReportedBySecond == (done /\ round = MaxRound) => who = 2
=============================================================================
