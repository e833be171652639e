SPECIFICATION Spec
CONSTANTS Step = 10000
INVARIANTS OneLevel Refuses Accepts Transposes
CHECK_DEADLOCK FALSE
