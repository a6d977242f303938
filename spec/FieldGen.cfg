INIT Init
NEXT Next
CONSTANT Depth = 14
CHECK_DEADLOCK FALSE
