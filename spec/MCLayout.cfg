SPECIFICATION Spec
INVARIANTS Tiles Ends Codec
CHECK_DEADLOCK FALSE
