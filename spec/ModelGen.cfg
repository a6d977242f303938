INIT Init
NEXT Next
CONSTANT Depth = 12
CHECK_DEADLOCK FALSE
