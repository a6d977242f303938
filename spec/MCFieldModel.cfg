SPECIFICATION Spec
CONSTANTS
 MaxAdds = 6
 W = 3
 Vals = {0, 1, 3}
INVARIANTS WindowInv FreshInv SizeInv
PROPERTY QueryExact
CHECK_DEADLOCK FALSE
