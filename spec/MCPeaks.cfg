SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxLevel = 3
INVARIANTS OnlyRises Stationary Raise Scaled Shift Move
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
