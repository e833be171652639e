SPECIFICATION Spec
CONSTANTS Rates = {8000, 11025, 22050, 44100, 48000}
 Sizes = {5, 9, 12, 17, 33, 65, 129}
 Counts = {1, 4, 5, 6, 12, 26, 40}
 Lows = {0, 30, 400, 30000}
 Highs = {0, 300, 3000, 12000}
INVARIANTS Climbs Inside AtMostTwo Outside Unity Louder
CHECK_DEADLOCK FALSE
