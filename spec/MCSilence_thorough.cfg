SPECIFICATION Spec
CONSTANTS MaxN = 10 MaxF = 6 MaxD = 5
INVARIANTS Refines Safe
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
