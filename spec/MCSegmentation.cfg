SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS AlwaysSound MarksMatch AtEnd Partition
PROPERTY NoReclassify
CHECK_DEADLOCK FALSE
