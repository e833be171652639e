------------------------------ MODULE MCChroma ------------------------------
(* A tone glides upwards through the spectrum, bin by bin.                      *)
EXTENDS Chroma, IOUtils, Json
CONSTANTS Res, Bins
VARIABLES bin, res
vars == <<bin, res>>
F == bin * res
Init == res \in Res /\ bin = 1
Glide == bin < Bins /\ bin' = bin + 1 /\ UNCHANGED res
Spec == Init /\ [][Glide]_vars
Ok == F >= 200000 /\ F * 2 < 500000000
Rises == Ok => Pos(F + res) > Pos(F)
OctaveUp == Ok => Near(Pos(2 * F), Pos(F) + Turn, 60)
SameClass == (Ok /\ ~Torn(Pos(F))) => Class(Pos(2 * F)) = Class(Pos(F))
\* a fifth above is about seven semitones above
Fifth == (Ok /\ F % 2 = 0) => Near(Pos(F + F \div 2), Pos(F) + 7019550, 400)
Spread == Ok => LET p == Pos(F) IN \A c \in PC : Share(p, c, TRUE, 500) <= Share(p, Class(p), TRUE, 500)
Whole == Ok => FoldSet(LAMBDA c, a : a + Share(Pos(F), c, FALSE, 500), 0, PC) = 100000
UnitOk == Ok => \A sg \in {300, 500, 1500} :
            LET u == TLCEval(UnitLen(TLCEval(Profile({<<Pos(F), 8, 1>>}, TRUE, sg, 1)))) IN Near(FoldSet(LAMBDA c, a : a + u[c] * u[c], 0, PC), 100000000, 400000)
Concert == Pos(4400000) = 57 * M /\ Pos(2616256) = 48 * M /\ Pos(8800000) = 69 * M
ASSUME Concert
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq([bin : 1..Bins, res : Res]))
=============================================================================
