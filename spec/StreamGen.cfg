INIT Init
NEXT Next
CONSTANT Depth = 8
CHECK_DEADLOCK FALSE
