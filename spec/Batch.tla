-------------------------------- MODULE Batch --------------------------------
(* A batch of analyses: workers take jobs (tracks) and deliver results. What an *)
(* analysis reports is a function of the track alone: not of what the worker    *)
(* analysed before, of what runs beside it, or of the order of finishing.       *)
(*   running  worker -> track it is analysing (0: idle)                         *)
(*   left     worker -> the last track it has finished (0: none)                *)
(*   history  the steps taken so far: <<"start", w, t>> and <<"finish", w, r>>  *)
(*   known    track -> result seen for it (0: none yet)                         *)
EXTENDS Base
CONSTANTS Workers, Tracks
Fresh == [running |-> [w \in Workers |-> 0], left |-> [w \in Workers |-> 0], known |-> [t \in Tracks |-> 0], ok |-> TRUE]
CanStart(s, w) == s.running[w] = 0
Starts(s, w, t) == [s EXCEPT !.running[w] = t]
CanFinish(s, w) == s.running[w] # 0
\* the result r delivered for the track has to be the one known for it
Finishes(s, w, r) == LET t == s.running[w] IN
  [s EXCEPT !.running[w] = 0, !.left[w] = t, !.known[t] = IF @ = 0 THEN r ELSE @, !.ok = @ /\ (s.known[t] \in {0, r})]
=============================================================================
