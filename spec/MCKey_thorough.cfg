SPECIFICATION Spec
CONSTANTS Notes = 5
 Sets = {"kk", "temp"}
INVARIANTS Some Equivariant ScaleFree LevelOne HeadStays
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
