------------------------------- MODULE MCBatch -------------------------------
(* All schedules of a small batch. An analysis is a function F of the track (in *)
(* this model: its number times ten). The wrong designs of the constant Leak     *)
(* show what the invariant rules out: results that depend on what the worker     *)
(* did before, or on what runs beside it.                                        *)
EXTENDS Batch, IOUtils, Json
CONSTANTS Jobs, Leak
VARIABLES s, n, hist
vars == <<s, n, hist>>
F(t) == 10 * t
Result(w) == LET t == s.running[w] IN
  CASE Leak = "none" -> F(t)
    [] Leak = "history" -> IF s.left[w] # 0 /\ s.left[w] # t THEN F(t) + s.left[w] ELSE F(t)
    [] Leak = "beside" -> IF \E v \in Workers \ {w} : s.running[v] \notin {0, t} THEN F(t) + 1 ELSE F(t)
Init == s = Fresh /\ n = 0 /\ hist = <<>>
\* idle workers are interchangeable until they have worked
Sensible(w) == \A v \in Workers : v < w => s.left[v] # 0 \/ s.running[v] # 0
Start == \E w \in Workers, t \in Tracks : n < Jobs /\ CanStart(s, w) /\ Sensible(w) /\ s' = Starts(s, w, t) /\ n' = n + 1 /\ hist' = Append(hist, <<"start", w, t>>)
Finish == \E w \in Workers : CanFinish(s, w) /\ s' = Finishes(s, w, Result(w)) /\ n' = n /\ hist' = Append(hist, <<"finish", w, s.running[w]>>)
Done == n = Jobs /\ \A w \in Workers : s.running[w] = 0
Next == Start \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish)
SameEveryTime == s.ok
Drained == n = Jobs ~> Done
Covers == { hist[i][3] : i \in DOMAIN hist } = Tracks
ASSUME IF "CASES" \in DOMAIN IOEnv THEN TLCSet(1, <<>>) ELSE TRUE
\* the complete schedules that use every track are the cases
Dump == IF Leak = "none" /\ Done /\ Covers THEN TLCSet(1, Append(TLCGet(1), [h |-> hist])) ELSE TRUE
Write == IF Leak = "none" THEN TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, TLCGet(1)) ELSE TRUE
=============================================================================
