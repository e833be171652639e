SPECIFICATION Spec
CONSTANTS
 Bpms = {60, 80, 90, 120, 150, 175, 185, 240}
 Confs = {5, 50, 56}
INVARIANTS OnlyMandatory SwitchedOff Source FusionMoves Truth NoPromotion LeftAlone Lists
CHECK_DEADLOCK FALSE
