----------------------------- MODULE TraceMixer -----------------------------
EXTENDS Mixer, TraceKit
VARIABLE l
Judge(e) ==
  IF Crashed(e) THEN {"C09.total", "C01.stage"}
  ELSE IF e.status = "panic" THEN {"C09.total", "C01.stage"}
  ELSE IF Refused(e.x, e.y) THEN Failed(<< <<"C09.refused", e.status = "InvalidInput">> >>)
  ELSE IF e.status # "ok" THEN {"C09.ok"}
  ELSE Failed(<< <<"C09.len", Len(e.out) = Len(e.x)>>,
                 <<"C09.mix", e.exact /\ e.out = Mix(e.m, e.x, e.y)>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
