SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Accounted Independent OnlyAccepted Bounded
CHECK_DEADLOCK FALSE
