SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3}
 Tracks = {1, 2}
 Jobs = 5
 Leak = "history"
INVARIANTS SameEveryTime


CHECK_DEADLOCK FALSE
