SPECIFICATION Spec
VIEW View
CONSTANTS
 MaxT = 5
 W = 3
 MinData = 2
 Two = TRUE
INVARIANTS LearnsOnlyIntact WindowKept
PROPERTY Guarantees
CHECK_DEADLOCK FALSE
