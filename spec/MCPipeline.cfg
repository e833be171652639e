SPECIFICATION Spec
CONSTANTS
 Bpms = {60, 90, 120, 185}
 Confs = {5, 50}
INVARIANTS OnlyMandatory SwitchedOff Source FusionMoves Truth NoPromotion LeftAlone Lists
PROPERTY Terminates
CHECK_DEADLOCK FALSE
