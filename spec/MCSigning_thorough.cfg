SPECIFICATION Spec
CONSTANTS Streams = {1, 2}
 MaxTs = 3
 MaxRecv = 4
INVARIANTS OnlyGenuine NoReplay ForgeriesHarmless NoBlocking Clock
CHECK_DEADLOCK FALSE
