SPECIFICATION Spec
CONSTANTS MaxBeats = 7
INVARIANTS Ordered Cover NoGap Merge Var
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
