SPECIFICATION Spec
CONSTANTS MaxBeats = 9
INVARIANTS Ordered Cover NoGap Merge Var
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
