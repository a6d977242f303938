SPECIFICATION Spec
CONSTANTS
 NB = 2
 MaxT = 5
 MinD = 4
 K = 2
 CD = "LL"
 MD = "Hellinger"
 WS = "linear"
INVARIANTS Conserved ClustersBound LabelRange CountsBound Total
PROPERTY JoinsOne
CHECK_DEADLOCK FALSE
