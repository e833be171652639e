SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3}
 Tracks = {1, 2}
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
