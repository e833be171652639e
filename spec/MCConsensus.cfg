SPECIFICATION Spec
CONSTANTS MaxT = 7 MaxVotes = 5 MaxTol = 3 Ms = {1, 3}
INVARIANTS Refines Safe Bounded
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
