SPECIFICATION Spec
CONSTANTS T = 3 B = 3 Vals = {0, 10000} Steps = 3
INVARIANTS Sound Tone
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
