SPECIFICATION Spec
CONSTANTS T = 3 B = 4 Vals = {0, 10000} Steps = 4
INVARIANTS Sound Tone
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
