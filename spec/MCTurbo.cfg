SPECIFICATION Spec
CONSTANTS
 MaxRound = 3
 Opinions = {0, 1, 2, 5}
INVARIANTS ExtrinsicOnly FailureIsReportedBySecond
CHECK_DEADLOCK FALSE
