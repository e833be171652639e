--------------------------- MODULE TraceNotation ---------------------------
EXTENDS Notation, TraceKit
VARIABLE l
KeyOf(j) == [mode |-> j.mode, pc |-> j.pc]
Judge(e) ==
  IF Crashed(e) THEN {"C17.total", "C01.stage"}
  ELSE IF e.ev = "parse" THEN Failed(<<
        <<"C17.parse_total", e.status = "ok">>,
        <<"C17.parse", e.status = "ok" => KeyOf(e.key) \in Parse(e.t)>> >>)
  ELSE IF e.ev = "key" THEN
        LET k == KeyOf(e.key) IN Failed(<<
        <<"C17.name", e.status = "ok" /\ <<e.note, e.minor>> = Name(k)>>,
        <<"C17.code", e.status = "ok" /\ e.code = Code(k)>>,
        <<"C17.roundtrip", e.status = "ok" /\ KeyOf(e.back) = k>> >>)
  ELSE {"C17.event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
