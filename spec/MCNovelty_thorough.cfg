SPECIFICATION Spec
CONSTANTS NF = 3
 NB = 2
 Vals = {0, 1, 2, 3}
INVARIANTS Zero Unitary Wider
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
