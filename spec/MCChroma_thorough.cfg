SPECIFICATION Spec
CONSTANTS Res = {312500, 500000, 1000000, 110000, 73000, 215000}
 Bins = 400
INVARIANTS Rises OctaveUp SameClass Fifth Spread Whole UnitOk
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
