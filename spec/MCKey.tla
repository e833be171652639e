------------------------------- MODULE MCKey -------------------------------
(* Notes sound one after another; after every note the detector may be asked. *)
(* Every histogram of up to Notes notes is reached.                            *)
EXTENDS Key, IOUtils, Json
CONSTANTS Notes, Sets
VARIABLES H, set
vars == <<H, set>>
Init == H = [p \in PC |-> 0] /\ set \in Sets
Play == \E p \in PC : Sum([q \in 1..12 |-> H[q - 1]]) < Notes /\ H' = [H EXCEPT ![p] = @ + 1] /\ UNCHANGED set
Spec == Init /\ [][Play]_vars
RotH(n) == [p \in PC |-> H[(p - n) % 12]]
Win(h) == Winners(Match(h, set, <<>>), set)
Some == Win(H) # {}
Equivariant == Win(RotH(1)) = { Rot(k, 1) : k \in Win(H) }
ScaleFree == Win([p \in PC |-> 3 * H[p]]) \subseteq Win(H) \/ Win(H) \subseteq Win([p \in PC |-> 3 * H[p]])
\* leveled scores: a mode's head scores one, everything else at most one
LevelOne == Sum([q \in 1..12 |-> H[q - 1]]) > 0 =>
              \A L \in {TLCEval(Leveled(TLCEval(Match(H, set, <<>>))))} : (\A k \in Keys : L[k] >= 0 /\ L[k] <= S) /\ (\E k \in 0..11 : L[k] = S) /\ (\E k \in 12..23 : L[k] = S)
\* a mode's head also leads its mode after the circle-of-fifths gain
HeadStays == \A R \in {TLCEval(Match(H, set, <<>>))} : \A L \in {TLCEval(Leveled(R))} :
              \A k \in Heads(R, TRUE) : \A j \in 0..11 : Lifted(L, j, k) <= Lifted(L, k, k)
\* the sound of a key's own profile is that key
OwnProfile == \A s \in Sets : \A k \in Keys : Winners(Match([p \in PC |-> Entry(s, k, p)], s, <<>>), s) = {k}
ASSUME OwnProfile
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [h |-> [i \in 1..12 |-> h[i]]] : h \in { x \in [1..12 -> 0..1] : TRUE } }))
=============================================================================
