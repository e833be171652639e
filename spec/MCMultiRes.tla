----------------------------- MODULE MCMultiRes -----------------------------
(* The fusion of every constellation of candidates over a few related tempi.    *)
(* One list is built per step (the three resolutions), then the fusion decides. *)
EXTENDS MultiRes
CONSTANTS Tempi, Levels, Mins, Maxs, Thrs, Humans
VARIABLES cs, o, out
vars == <<cs, o, out>>
Opts == { [min |-> B(a), max |-> B(b), tol |-> B(2), w |-> <<35, 45, 20>>, fac |-> 92, thr |-> t, human |-> h, family |-> TRUE] : a \in Mins, b \in Maxs, t \in Thrs, h \in Humans }
\* a list holds each tempo in the range at most once, strongest first
Ranked(f) == SetToSortSeq({ <<B(t), f[t]>> : t \in { t \in Tempi : f[t] > 0 } }, LAMBDA x, y : x[2] > y[2] \/ (x[2] = y[2] /\ x[1] < y[1]))
InRange(q) == \A i \in DOMAIN q : q[i][1] >= o.min /\ q[i][1] <= o.max
Init == cs = <<>> /\ o \in Opts /\ out = {}
Add == /\ Len(cs) < 3
       /\ \E f \in [Tempi -> Levels] : LET q == Ranked(f) IN InRange(q) /\ (Len(cs) = 1 => q # <<>>) /\ cs' = Append(cs, q)
       /\ UNCHANGED <<o, out>>
\* alignment: favours one tempo, by more or less than it takes
Al(b) == IF b = B(120) THEN {900000} ELSE IF b = B(80) THEN {450000} ELSE {100000}
Decide == Len(cs) = 3 /\ out = {} /\ out' = (LET F == Fuse(o, cs, Al) IN IF F = {} THEN { <<0, 0, 0, 0>> } ELSE F) /\ UNCHANGED <<cs, o>>
Next == Add \/ Decide
Spec == Init /\ [][Next]_vars
Related(b, t) == \E r \in {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<4, 1>>, <<1, 4>>} : \E q \in {<<1, 1>>, <<3, 2>>, <<2, 3>>, <<4, 3>>, <<3, 4>>} :
                  Abs(b * r[2] * q[2] - t * r[1] * q[1]) <= 200
Answers == Len(cs) = 3 /\ out # {} => \A r \in out : r[1] > 0
InBounds == \A r \in out : r[1] >= o.min - EB /\ r[1] <= o.max + EB
FromCandidates == \A r \in out : \E i \in DOMAIN cs[2] : Related(r[1], cs[2][i][1])
Ordered == \A r \in out : r[3] <= r[4] /\ r[2] >= 0
\* a lone candidate that nothing contradicts is reported as it is
Lone == (out # {} /\ Len(cs[2]) = 1 /\ cs[1] = cs[2] /\ cs[3] = cs[2]) => \A r \in out : r[1] = cs[2][1][1]
\* with an unreachable margin no candidate is replaced by its octave unless the folds do it
Sticks == (out # {} /\ o.thr > 5 * M) => \A i \in DOMAIN cs[2] : \A h \in Hyps(o, cs, cs[2][i][1]) : h[1] = cs[2][i][1]
=============================================================================
