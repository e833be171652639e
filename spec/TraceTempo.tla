----------------------------- MODULE TraceTempo -----------------------------
(* One event per history of updates of a tracker:                               *)
(*  init: tempo, initial confidence; steps: ons (100 us), status, bpm, conf,    *)
(*  ret/retc (what the call returned), hist; target > 0: the onsets are a       *)
(*  steady pulse of that tempo, within reach of the initial tempo               *)
EXTENDS Tempo, TraceKit
VARIABLE l
Prev(e, i) == IF i = 1 THEN [bpm |-> e.init, conf |-> e.conf0, hist |-> <<e.init>>] ELSE e.steps[i - 1]
Change(e, i) == Abs(e.steps[i].bpm - Prev(e, i).bpm)
ConfOk(e, i) ==
  LET s == e.steps[i] L == Likelihood(s.ons, s.bpm) c == Change(e, i)
      w == (L * Penalty(c)) \div 10
  IN  \/ Near(s.conf, w, 2500)
      \/ (Near(c, 100, 1) \/ Near(c, 300, 1)) /\ \E p \in {5, 8, 10} : Near(s.conf, (L * p) \div 10, 2500)
StepBad(e, i) ==
  LET s == e.steps[i] p == Prev(e, i)
      refuse == s.ons = <<>> \/ ~Usable(p.bpm)
  IN IF s.status = "panic" THEN {"C24.total", "C01.tempo"}
     ELSE IF refuse THEN Failed(<< <<"C24.refused", s.status = "InvalidInput" /\ s.bpm = p.bpm /\ s.conf = p.conf /\ s.hist = p.hist>>,
                                   <<"C02.tempo", s.status = "InvalidInput">> >>)
     ELSE IF s.status # "ok" THEN {"C24.accepted"}
     ELSE Failed(<<
       <<"C24.history", s.hist = Append(p.hist, s.bpm)>>,
       <<"C24.returns", s.ret = s.bpm /\ s.retc = s.conf>>,
       <<"C24.conf_range", Unit(s.conf)>>,
       <<"C24.reach", Change(e, i) <= Reach + 1>>,
       <<"C24.band", NumCand(p.bpm) > 0 => s.bpm >= Lo /\ s.bpm <= Hi>>,
       <<"C24.best", \E c \in BestFit(s.ons, p.bpm) : Near(c, s.bpm, 1)>>,
       <<"C24.conf", NumCand(p.bpm) > 0 => ConfOk(e, i)>> >>)
\* a long history: rets holds what each update returned, -1 for a refused one
LongBad(e) ==
  LET done == SelectSeq(e.rets, LAMBDA x : x >= 0) IN
  IF -2 \in Range(e.rets) THEN {"C24.accepted"}
  ELSE Failed(<<
    <<"C24.history", e.hist = <<e.init>> \o done>>,
    <<"C24.current", done # <<>> => e.bpm = done[Len(done)]>>,
    <<"C24.converges", \A i \in 2..Len(done) : Near(done[i], e.target, 51)>> >>)
Judge(e) ==
  IF Crashed(e) THEN {"C24.total", "C01.stage"}
  ELSE IF e.ev = "long" THEN LongBad(e)
  ELSE UNION { StepBad(e, i) : i \in DOMAIN e.steps }
       \cup Failed(<< <<"C24.initial", e.conf0 = Clamp(e.claim, 0, M)>>, <<"C03.tempo_conf", Unit(e.conf0) /\ \A i \in DOMAIN e.steps : Unit(e.steps[i].conf)>> >>)
       \cup (IF e.target > 0 THEN Failed(<<
               <<"C24.converges", \A i \in 2..Len(e.steps) : Near(e.steps[i].bpm, e.target, 51)>> >>) ELSE {})
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
