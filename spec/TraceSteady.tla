----------------------------- MODULE TraceSteady -----------------------------
(* "steady": a steady track (bpm, key), its analysis s, and the analyses of the *)
(* same track at another level and with silence around it.                      *)
EXTENDS Steady, TraceKit
VARIABLE l
Judge(e) == IF Crashed(e) THEN {"C26.total", "C01.stage"} ELSE
  Owes(e.s, e.bpm, e.key) \cup Owes(e.level, e.bpm, e.key) \cup Owes(e.silence, e.bpm, e.key)
  \cup (IF e.s.st = "ok" /\ e.level.st = "ok" /\ e.silence.st = "ok" THEN
        Failed(<< <<"C26.level", e.level.bpm = e.s.bpm \/ (Right(e.s.bpm, e.bpm) /\ Right(e.level.bpm, e.bpm))>>,
                  <<"C26.trimmed", e.silence.dur <= e.s.dur + 1500000>> >>) ELSE {})
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
