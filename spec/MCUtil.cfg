INIT Init
NEXT Next
CONSTANTS N = 4
 M = 1
INVARIANT Laws
CHECK_DEADLOCK FALSE
