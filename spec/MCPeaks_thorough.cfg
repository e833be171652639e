SPECIFICATION Spec
CONSTANTS MaxLen = 8 MaxLevel = 3
INVARIANTS OnlyRises Stationary Raise Scaled Shift Move
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
