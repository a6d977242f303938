INIT Init
NEXT Next
CONSTANT Depth = 24
CHECK_DEADLOCK FALSE
