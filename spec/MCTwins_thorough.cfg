SPECIFICATION Spec
CONSTANTS
 MaxCalls = 3
 Copy = TRUE
 Private = TRUE
INVARIANT SameHistorySameOutput
CHECK_DEADLOCK FALSE
