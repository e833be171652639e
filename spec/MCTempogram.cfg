SPECIFICATION Spec
CONSTANTS Tempi = {50000, 93000, 93700, 94600, 120000, 187400}
 Levels = {0, 20, 45, 100}
INVARIANTS HeadOrHalf NeverRaises KeepsClear Robust LeadBound
CHECK_DEADLOCK FALSE
