SPECIFICATION Spec
CONSTANT Flips = 2
INVARIANTS Complete Exclusive GridOnly Overruled Short
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
