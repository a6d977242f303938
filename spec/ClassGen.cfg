INIT Init
NEXT Next
CONSTANT Depth = 16
CHECK_DEADLOCK FALSE
