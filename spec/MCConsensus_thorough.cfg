SPECIFICATION Spec
CONSTANTS MaxT = 8 MaxVotes = 6 MaxTol = 4 Ms = {1, 2, 3}
INVARIANTS Refines Safe Bounded
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
