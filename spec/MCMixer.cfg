SPECIFICATION Spec
CONSTANTS R = 3 MaxLen = 2
INVARIANTS Inv
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
