------------------------------- MODULE MCMel -------------------------------
(* Every filter bank of a small family: its corners climb, its triangles cover  *)
(* the bins between the first and the last corner, and louder frames give       *)
(* louder bands.                                                                *)
EXTENDS Mel, IOUtils, Json
CONSTANTS Rates, Sizes, Counts, Lows, Highs
VARIABLES bank, b
vars == <<bank, b>>
Bind(F(_), x) == CHOOSE y \in { F(v) : v \in {x} } : TRUE
Banks == { [sr |-> s, nb |-> z, n |-> Bands(c), lo |-> l, hi |-> h] : s \in Rates, z \in Sizes, c \in Counts, l \in Lows, h \in Highs }
Raw(k) == Bind(LAMBDA B : [i \in 1..(k.n + 2) |-> RawBin(Corners(k.n, k.nb, k.sr, k.lo, k.hi)[i], B)], Borders(k.nb, k.sr))
Init == bank \in { [k |-> x, P |-> Increasing(Raw(x), x.nb)] : x \in Banks } /\ b = 0
Next == b < bank.k.nb - 1 /\ b' = b + 1 /\ UNCHANGED bank
Spec == Init /\ [][Next]_vars
P == bank.P
n == bank.k.n
Climbs == \A i \in 1..(n + 1) : P[i] < P[i + 1] \/ P[i + 1] = bank.k.nb - 1
Inside == \A i \in 1..(n + 2) : P[i] \in 0..(bank.k.nb - 1)
\* a bin that is strictly between two corners lies in one or two bands, nothing else does
Share(x) == { m \in 1..n : P[m] < P[m + 1] /\ P[m + 1] < P[m + 2] /\ Weight(x, P[m], P[m + 1], P[m + 2], 1) > 0 }
AtMostTwo == Cardinality(Share(b)) <= 2
Outside == b <= P[1] \/ b >= P[n + 2] => Share(b) = {}
Unity == LET s == Share(b) IN Cardinality(s) = 2 =>
           Near(FoldSet(LAMBDA m, a : a + Weight(b, P[m], P[m + 1], P[m + 2], 1), 0, s), 10000, 1)
Tone(x, v) == [i \in 1..bank.k.nb |-> IF i = x + 1 THEN v ELSE 0]
Louder == \A m \in 1..n : Levels(Tone(b, 1), P, n, 1)[m] <= Levels(Tone(b, 3), P, n, 1)[m]
=============================================================================
