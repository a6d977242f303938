SPECIFICATION Spec
CONSTANTS
 MaxAdds = 8
 W = 3
 Vals = {0, 1, 3}
INVARIANTS WindowInv FreshInv SizeInv
PROPERTY QueryExact
CHECK_DEADLOCK FALSE
