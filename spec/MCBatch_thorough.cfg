SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3}
 Tracks = {1, 2}
 Jobs = 6
 Leak = "none"
INVARIANTS SameEveryTime
PROPERTY Drained
CONSTRAINT Dump
POSTCONDITION Write
CHECK_DEADLOCK FALSE
