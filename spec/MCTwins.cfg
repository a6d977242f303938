SPECIFICATION Spec
CONSTANTS
 MaxCalls = 2
 Copy = TRUE
 Private = TRUE
INVARIANT SameHistorySameOutput
CHECK_DEADLOCK FALSE
