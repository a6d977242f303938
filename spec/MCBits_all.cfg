SPECIFICATION Spec
CONSTANTS W = 0 MaxT = 6 NBits = 2
INVARIANTS CountsAreOfTheWindow CorrectedIsFrequency Monotone
CHECK_DEADLOCK FALSE
