SPECIFICATION Spec
CONSTANTS W = 3 MaxT = 6 NBits = 2
INVARIANTS CountsAreOfTheWindow CorrectedIsFrequency Monotone
CHECK_DEADLOCK FALSE
