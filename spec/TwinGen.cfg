INIT Init
NEXT Next
CONSTANT Depth = 9
CHECK_DEADLOCK FALSE
