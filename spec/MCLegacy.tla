------------------------------ MODULE MCLegacy ------------------------------
(* Candidates arrive one by one from either method (each method's in descending *)
(* order of confidence); the merge is checked after every arrival.              *)
EXTENDS Legacy, Json, IOUtils
CONSTANTS MaxA, MaxC
VARIABLES ac, cb
vars == <<ac, cb>>
Tempi == {5500, 6000, 11000, 11150, 12000, 22000}
Confs == {1000000, 600000, 200000}
Cands == { [b |-> b, c |-> c] : b \in Tempi, c \in Confs }
Ok(s, x) == IF s = <<>> THEN TRUE ELSE s[Len(s)].c >= x.c /\ \A i \in DOMAIN s : s[i].b # x.b
Init == ac = <<>> /\ cb = <<>>
AddA == Len(ac) < MaxA /\ \E x \in Cands : Ok(ac, x) /\ ac' = Append(ac, x) /\ UNCHANGED cb
AddC == Len(cb) < MaxC /\ \E x \in Cands : Ok(cb, x) /\ cb' = Append(cb, x) /\ UNCHANGED ac
Next == AddA \/ AddC
Spec == Init /\ [][Next]_vars
Out == Merge(ac, cb, 293, 0)
\* every estimate is made of what was passed in: it lies between candidates (or their counterparts in the other method)
Sourced == LET all == { ac[j].b : j \in DOMAIN ac } \cup { cb[j].b : j \in DOMAIN cb } IN \A i \in DOMAIN Out : \E x \in all : Near(Out[i].b, x, 400)
\* every input is counted exactly once
Counted == Sum([i \in DOMAIN Out |-> Out[i].n]) = Len(ac) + Len(cb)
Positive == \A i \in DOMAIN Out : Out[i].c >= 0 /\ Out[i].c <= 5 * M
\* agreement on the very same tempo is never worth less than one method alone
Agree == \A i \in DOMAIN ac : \A j \in DOMAIN cb : (ac[i].b = cb[j].b /\ Len(ac) = 1 /\ Len(cb) = 1) =>
            Out[1].c >= Max2(Merge(ac, <<>>, 293, 0)[1].c, 0)
Empty == (Out = <<>>) <=> (ac = <<>> /\ cb = <<>>)
CSeqs(k) == { s \in UNION { [1..n -> Cands] : n \in 0..k } : \A i \in 1..(Len(s) - 1) : s[i].c >= s[i + 1].c }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [ac |-> a, cb |-> c] : a \in CSeqs(2), c \in CSeqs(1) }
            \cup { [ac |-> a, cb |-> c] : a \in CSeqs(1), c \in CSeqs(2) }))
=============================================================================
