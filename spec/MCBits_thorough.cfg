SPECIFICATION Spec
CONSTANTS W = 3 MaxT = 8 NBits = 2
INVARIANTS CountsAreOfTheWindow CorrectedIsFrequency Monotone
CHECK_DEADLOCK FALSE
