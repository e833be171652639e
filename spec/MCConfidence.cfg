SPECIFICATION Spec
INVARIANTS Inv Mono
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
