INIT Init
NEXT Next
CONSTANTS N = 7
 M = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
