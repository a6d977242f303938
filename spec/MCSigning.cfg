SPECIFICATION Spec
CONSTANTS Streams = {1, 2}
 MaxTs = 2
 MaxRecv = 3
INVARIANTS OnlyGenuine NoReplay ForgeriesHarmless NoBlocking Clock
CHECK_DEADLOCK FALSE
