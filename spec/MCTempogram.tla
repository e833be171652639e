----------------------------- MODULE MCTempogram -----------------------------
(* Every constellation of up to three ranked candidates: the choice is the head *)
(* or, only above the preferred range, a candidate at half its tempo.           *)
EXTENDS Tempogram, IOUtils, Json
CONSTANTS Tempi, Levels
VARIABLES rank, chosen
vars == <<rank, chosen>>
Lo == 40000
Hi == 240000
Cand(b, f, a) == [b |-> b, f |-> f * 1000000, a |-> a * 1000000, s |-> Prior(b, Blend(a * 1000000, f * 1000000))]
Cands == { Cand(b, f, a) : b \in Tempi, f \in Levels, a \in Levels }
Init == rank = <<>> /\ chosen = 0
Add == /\ chosen = 0 /\ Len(rank) < 3
       /\ \E c \in Cands : /\ \A i \in DOMAIN rank : Abs(rank[i].b - c.b) >= Merge
                           /\ (IF rank = <<>> THEN TRUE ELSE c.s <= rank[Len(rank)].s)
                           /\ rank' = Append(rank, c)
       /\ UNCHANGED chosen
Decide == chosen = 0 /\ rank # <<>> /\ chosen' = Choice(rank, Lo, Hi, 0, 0) /\ UNCHANGED rank
Next == Add \/ Decide
Spec == Init /\ [][Next]_vars
HeadOrHalf == chosen > 1 => rank[1].b > PrefHi /\ Abs(rank[chosen].b - rank[1].b \div 2) < Merge
NeverRaises == chosen > 0 => rank[chosen].b <= rank[1].b
KeepsClear == (chosen > 0 /\ rank[1].b <= PrefHi) => chosen = 1
Robust == chosen > 0 => chosen \in Chosen(rank, Lo, Hi)
LeadBound == chosen > 0 => Lead(rank, chosen) >= 0 /\ Lead(rank, chosen) <= rank[chosen].s
=============================================================================
