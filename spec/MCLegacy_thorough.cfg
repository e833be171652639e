SPECIFICATION Spec
CONSTANTS MaxA = 2 MaxC = 2
INVARIANTS Sourced Counted Positive Agree Empty
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
