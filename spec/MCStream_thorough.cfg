SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Accounted Independent OnlyAccepted Bounded
CHECK_DEADLOCK FALSE
