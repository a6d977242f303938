SPECIFICATION Spec
CONSTANTS
 MaxT = 7
 W = 3
 MinData = 2
INVARIANTS VerifiedModelIsTrue WindowInv BSeesEverything NoEarlyRectification
PROPERTY FirstPassFinal
CHECK_DEADLOCK FALSE
