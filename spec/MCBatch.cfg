SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3}
 Tracks = {1, 2}
 Jobs = 5
 Leak = "none"
INVARIANTS SameEveryTime
CONSTRAINT Dump
POSTCONDITION Write
CHECK_DEADLOCK FALSE
