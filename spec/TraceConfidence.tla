-------------------------- MODULE TraceConfidence --------------------------
(* Binds the Confidence module to recorded calls of the real code.             *)
EXTENDS Confidence, TraceKit
VARIABLE l

Tol == 5
ToSetOf(s) == { s[i] : i \in DOMAIN s }
Abstract(e) == [bpm |-> e.bpm, bc |-> e.bc, kc |-> e.kc, cl |-> e.cl, g |-> e.g,
                topics |-> ToSetOf(e.topics), flags |-> e.flags]
\* flag lists admissible for values known up to Tol
Edge(x, c) == Abs(x - c) <= Tol
FlagOk(e, r) ==
  LET n == Len(e.flags)
      own == SubSeq(e.rflags, n + 1, Len(e.rflags))
      one(v, c, f) == IF Edge(v, c) THEN TRUE ELSE (f \in ToSetOf(own)) <=> v < c
  IN  /\ Len(e.rflags) >= n /\ SubSeq(e.rflags, 1, n) = e.flags
      /\ Cardinality(ToSetOf(own)) = Len(own)
      /\ ToSetOf(own) \subseteq {"MultimodalBpm", "WeakTonality", "TempoVariation"}
      /\ one(r.bc, 300000, "MultimodalBpm") /\ one(r.kc, 200000, "WeakTonality") /\ one(r.g, 300000, "TempoVariation")
LevelOk(e) ==
  LET names == {"High", "Medium", "Low"}
      fits(v) == e.level = Level(v)
  IN  /\ e.level \in names
      /\ e.high = (e.level = "High") /\ e.low = (e.level = "Low") /\ e.medium = (e.level = "Medium")
      /\ (fits(e.ro) \/ fits(e.ro - 1) \/ fits(e.ro + 1))

JudgeConf(e) ==
  IF Crashed(e) THEN {"C21.total", "C01.stage"}
  ELSE LET a == Abstract(e)  r == ReportOf(a)
  IN  IF ~(Fin(e.rb) /\ Fin(e.rk) /\ Fin(e.rg) /\ Fin(e.ro)) THEN {"C21.finite"}
      ELSE Failed(<<
        <<"C21.bpm",     Near(e.rb, r.bc, Tol)>>,
        <<"C21.key",     Near(e.rk, r.kc, Tol)>>,
        <<"C21.grid",    Near(e.rg, r.g, Tol)>>,
        <<"C21.overall", Near(e.ro, r.o, Tol)>>,
        <<"C21.zero",    (~e.bpm => e.rb = 0) /\ (e.kc <= 0 => e.rk = 0)>>,
        <<"C21.flags",   FlagOk(e, r)>>,
        <<"C21.level",   LevelOk(e)>>,
        <<"C21.range",   Unit(e.rb) /\ Unit(e.rk) /\ Unit(e.rg) /\ Unit(e.ro)>> >>)

Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, JudgeConf(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
