------------------------------ MODULE MCNovelty ------------------------------
(* All small spectrograms: a novelty curve is zero exactly where nothing rises. *)
EXTENDS Novelty, Json, IOUtils
CONSTANTS NF, NB, Vals
VARIABLES F
Frames == [1..NB -> Vals]
Init == F = <<>>
Next == Len(F) < NF /\ \E fr \in Frames : F' = Append(F, [k \in 1..NB |-> fr[k]])
Spec == Init /\ [][Next]_F
AnyUp(i) == \E k \in 1..NB : F[i + 1][k] > F[i][k]
Zero == Len(F) > 1 => \A i \in 1..(Len(F) - 1) : ~AnyUp(i) => EnergyRise(F, 1, NB)[i] = 0 /\ HfcRise(F, 1, NB)[i] = 0 /\ SuperSq(F, 1, 1, NB)[i] = 0
Unitary == Len(F) > 1 => LET r == Relative(EnergyRise(F, 1, NB)) IN (\A i \in DOMAIN r : Unit(r[i])) /\ (SeqMax(r) \in {0, M})
Wider == Len(F) > 1 => \A i \in 1..(Len(F) - 1) : SuperSq(F, 2, 1, NB)[i] <= SuperSq(F, 1, 1, NB)[i]
Cases == { <<a, b, c>> : a, b, c \in { [k \in 1..NB |-> fr[k]] : fr \in Frames } }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [f |-> x] : x \in Cases }))
=============================================================================
