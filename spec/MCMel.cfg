SPECIFICATION Spec
CONSTANTS Rates = {8000, 22050, 44100}
 Sizes = {5, 9, 17, 33}
 Counts = {1, 4, 6, 12}
 Lows = {0, 30, 400, 30000}
 Highs = {0, 300, 3000, 12000}
INVARIANTS Climbs Inside AtMostTwo Outside Unity Louder
CHECK_DEADLOCK FALSE
