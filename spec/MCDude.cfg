SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 K = 1
 A = 2
INVARIANTS CountsComplete ContextIsRecent CountsExact NoiselessIsIdentity MassPreserved SoftIsPositive
CHECK_DEADLOCK FALSE
