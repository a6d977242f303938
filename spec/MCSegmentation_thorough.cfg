SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS AlwaysSound MarksMatch AtEnd Partition
PROPERTY NoReclassify
CHECK_DEADLOCK FALSE
