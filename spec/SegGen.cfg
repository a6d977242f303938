INIT Init
NEXT Next
CONSTANT Depth = 6
CHECK_DEADLOCK FALSE
