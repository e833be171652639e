SPECIFICATION Spec
CONSTANTS Tempi = {60, 80, 120, 180}
 Levels = {0, 400000, 1000000}
 Mins = {40, 91}
 Maxs = {240, 150}
 Thrs = {80000, 6000000}
 Humans = {FALSE, TRUE}
INVARIANTS Answers InBounds FromCandidates Ordered Lone Sticks
CHECK_DEADLOCK FALSE
