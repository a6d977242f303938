SPECIFICATION Spec
CONSTANT W = 2
INVARIANT TrueMin
CHECK_DEADLOCK FALSE
