INIT Init
NEXT Next
CONSTANT Depth = 18
CHECK_DEADLOCK FALSE
