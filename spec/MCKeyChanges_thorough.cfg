SPECIFICATION Spec
CONSTANTS Ks = {0, 2, 5, 7}
 Cs = {135, 917}
 N = 5
INVARIANTS InOrder RealMoves Story Quiet PrimaryHeard
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
