SPECIFICATION Spec
CONSTANTS
 MaxLen = 12
 K = 2
 A = 2
INVARIANTS CountsComplete ContextIsRecent CountsExact NoiselessIsIdentity MassPreserved SoftIsPositive
CHECK_DEADLOCK FALSE
