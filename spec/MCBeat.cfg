SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Grid Bars Scan Tracked Even
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
