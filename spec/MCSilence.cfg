SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxF = 5 MaxD = 3
INVARIANTS Refines Safe
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
