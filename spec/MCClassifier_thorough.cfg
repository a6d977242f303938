SPECIFICATION Spec
CONSTANTS
 NB = 3
 MaxT = 6
 MinD = 4
 K = 2
 CD = "hamming"
 MD = "Hellinger"
 WS = "sqrt"
INVARIANTS Conserved ClustersBound LabelRange CountsBound Total
PROPERTY JoinsOne
CHECK_DEADLOCK FALSE
