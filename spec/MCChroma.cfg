SPECIFICATION Spec
CONSTANTS Res = {312500, 500000, 1000000, 110000}
 Bins = 120
INVARIANTS Rises OctaveUp SameClass Fifth Spread Whole UnitOk
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
