SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Deterministic OnlyCodes
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
