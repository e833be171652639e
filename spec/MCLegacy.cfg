SPECIFICATION Spec
CONSTANTS MaxA = 2 MaxC = 1
INVARIANTS Sourced Counted Positive Agree Empty
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
