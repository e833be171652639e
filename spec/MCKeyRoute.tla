----------------------------- MODULE MCKeyRoute -----------------------------
(* All configurations at most Flips switches away from the default; their      *)
(* routes are what the conformance runs execute.                               *)
EXTENDS KeyRoute, Json, IOUtils
CONSTANT Flips
VARIABLE k
Default == [x \in Switches |-> x \in {"own", "mask", "smooth", "weight", "vote", "hpcp"}]
Flipped(S) == [x \in Switches |-> IF x \in S THEN ~Default[x] ELSE Default[x]]
Some == UNION { kSubset(n, Switches) : n \in 0..Flips }
Init == k = Default
Next == \E x \in Switches : k' = [k EXCEPT ![x] = ~@] /\ Cardinality({ y \in Switches : k'[y] # Default[y] }) <= Flips
Spec == Init /\ [][Next]_k
\* every route is complete: one choice per stage
Complete == Route(k).cond \in {"hpss", "mask", "smooth", "none"} /\ \A a, g \in {1, 2} : Route(k).chroma[a][g] \in {"log", "beat", "bass", "hpcp", "plain"}
\* the semitone axis excludes peak picking, beat windows and tuning
Exclusive == \A g \in {1, 2} : k.log => Route(k).chroma[2][g] = "log" /\ ~Route(k).tune[2]
\* without a grid nothing is aligned to beats; without beat alignment the grid is irrelevant
GridOnly == \A a \in {1, 2} : Route(k).chroma[a][1] # "beat" /\ (~k.beat => Route(k).chroma[a][1] = Route(k).chroma[a][2])
\* a switch that is overruled makes no difference
Overruled ==
  /\ k.hpss => Route(k) = Route([k EXCEPT !.mask = ~@])
  /\ (k.hpss \/ k.mask) => Route(k) = Route([k EXCEPT !.smooth = ~@])
  /\ ~k.hpcp => Route(k) = Route([k EXCEPT !.bass = ~@])
  /\ k.ensemble => Route(k).detect = Route([k EXCEPT !.multi = ~@]).detect /\ Route(k).detect = Route([k EXCEPT !.vote = ~@]).detect /\ Route(k).detect = Route([k EXCEPT !.median = ~@]).detect
  /\ k.median => Route(k).detect = Route([k EXCEPT !.vote = ~@]).detect
\* too short for its segments or scales a track is judged as a whole
Short == ~k.ensemble /\ ~k.median => Route(k).detect[1][1] = Route(k).single
\* edge trimming keeps a middle part
TrimOK == \A n \in {0, 1, 50, 199, 200, 201, 333, 1000} : \A p \in 0..60 : LET t == Kept(n, p) IN 0 <= t[1] /\ t[1] <= t[2] /\ t[2] <= n /\ Abs(t[1] - (n - t[2])) <= 1
ASSUME TrimOK
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [k |-> Flipped(S), route |-> Route(Flipped(S))] : S \in Some }))
=============================================================================
