SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS Grid Bars Scan Tracked Even
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
