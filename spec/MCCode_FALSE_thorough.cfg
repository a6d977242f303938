SPECIFICATION Spec
VIEW View
CONSTANTS
 MaxT = 5
 W = 3
 MinData = 2
 Two = FALSE
INVARIANTS LearnsOnlyIntact WindowKept
PROPERTY Guarantees
CHECK_DEADLOCK FALSE
