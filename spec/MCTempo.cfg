SPECIFICATION Spec
CONSTANTS NOns = 10
 Targets = {6500, 7050, 9000, 10025, 12000, 12810, 14000, 17400}
 Offsets = {0, 50, 130, 300, 450, 500, 550, 620, 800, 1000}
INVARIANTS Bounded InRange History
PROPERTIES AppendOnly Converges
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
