SPECIFICATION Spec
VIEW View
CONSTANTS
 MaxT = 3
 W = 2
 MinData = 1
 Two = TRUE
INVARIANTS LearnsOnlyIntact WindowKept
PROPERTY Guarantees
CHECK_DEADLOCK FALSE
