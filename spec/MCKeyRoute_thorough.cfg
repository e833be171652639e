SPECIFICATION Spec
CONSTANT Flips = 4
INVARIANTS Complete Exclusive GridOnly Overruled Short
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
