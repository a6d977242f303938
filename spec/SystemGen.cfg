INIT Init
NEXT Next
CONSTANT Depth = 10
CHECK_DEADLOCK FALSE
