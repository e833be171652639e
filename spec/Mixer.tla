-------------------------------- MODULE Mixer --------------------------------
(* Stereo to mono. Samples are integers; the mix is given in half units so that *)
(* averages are exact.                                                          *)
EXTENDS Base
Modes == {"mono", "midside", "dominant", "center"}
Mix1(mode, a, b) == IF mode = "dominant" THEN 2 * (IF Abs(a) >= Abs(b) THEN a ELSE b) ELSE a + b
Mix(mode, x, y) == [i \in DOMAIN x |-> Mix1(mode, x[i], y[i])]
Refused(x, y) == Len(x) # Len(y)

Between(mode, a, b) == LET m == Mix1(mode, a, b) IN 2 * Min2(a, b) <= m /\ m <= 2 * Max2(a, b)
Same(mode, a) == Mix1(mode, a, a) = 2 * a
Symmetric(mode, a, b) == Abs(a) # Abs(b) \/ mode # "dominant" => Mix1(mode, a, b) = Mix1(mode, b, a)
Odd(mode, a, b) == Mix1(mode, -a, -b) = -Mix1(mode, a, b)
=============================================================================
