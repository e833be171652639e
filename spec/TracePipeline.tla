---------------------------- MODULE TracePipeline ----------------------------
(* Whole analyses. Every "analysis" event carries what the stages returned on  *)
(* the same input and what the analysis reported; the specification takes the  *)
(* stages of Pipeline one step at a time and then compares its final state     *)
(* with the report. Where rounding leaves a decision open, the report resolves *)
(* it. "robust" events carry the mandatory stages and the report only.         *)
EXTENDS Pipeline, KeyRoute, TraceKit
VARIABLES l, s
e == Trace[l]
Src(x) == CASE x = "energy" -> 1 [] x = "strong" -> 2 [] x = "any" -> 3
Idx == Src(s.onsets)
Yes(x) == x = "yes"
Good == e.st = "ok"
Done == s.err = "" /\ Phases[s.phase] = "done"

\* support in the recorded candidate list around a tempo: <<least, greatest>>
Support(cs, at, tol) ==
  LET near(d) == { i \in DOMAIN cs : Abs(cs[i][1] - at) <= tol + d }
      top(S) == IF S = {} THEN 0 ELSE Max({ cs[i][2] : i \in S })
  IN << top(near(-E4)), top(near(E4)) >>
Sup == LET b == e.base.est.bpm  tol == Max2(BPM(2), e.c.res) IN [at |-> Support(e.bc, b, tol), twice |-> Support(e.bc, 2 * b, tol), half |-> Support(e.bc, b \div 2, tol)]

NearEst(x, r) == Near(x.conf, r.conf, 10) /\ Near(x.bpm, r.bpm, 1)
Closest(S, r) == IF \E t \in S : NearEst(t, r) THEN CHOOSE t \in S : NearEst(t, r) ELSE CHOOSE t \in S : TRUE
Step ==
  CASE Phases[s.phase] = "accept" -> Accept(s, e.o)
    [] Phases[s.phase] = "normalize" -> Normalize(s, e.c, e.norm)
    [] Phases[s.phase] = "trim" -> Trim(s, e.c, e.trimmed)
    [] Phases[s.phase] = "onsets" -> Mandatory(s, e.energy)
    [] Phases[s.phase] = "spectrum" -> Mandatory(s, e.stft)
    [] Phases[s.phase] = "vote" -> Vote(s, e.c, e.vote)
    [] Phases[s.phase] = "legacy" -> Legacy(s, e.counts[Idx], e.legacy[Idx])
    [] Phases[s.phase] = "tempogram" -> Tempogram(s, e.c, e.frames, e.base)
    [] Phases[s.phase] = "multires" -> MultiRes(s, e.c, e.base.est, {}, e.mr.est, Yes(e.r.trig), Yes(e.r.used))
    [] Phases[s.phase] = "percussive" -> Percussive(s, e.c, e.perc.est, Yes(e.r.ptrig), Yes(e.r.pused))
    [] Phases[s.phase] = "select" -> Select(s, Closest(Reported(s, e.c), e.r))
    [] Phases[s.phase] = "grid" -> Grid(s, e.counts[Idx], e.grids[Idx].st)

\* --- what every report has to satisfy, whatever the input
SeqOK(q) == \A i \in DOMAIN q : q[i] # NaN /\ q[i] >= 0
Plausible(r) == Failed(<<
  <<"C03.scores", Unit(r.conf) /\ Unit(r.kconf) /\ Unit(r.clarity) /\ Unit(r.stab) /\ Unit(r.onsets)>>,
  <<"C03.tempo", r.bpm # NaN /\ r.bpm >= 0>>,
  <<"C03.times", SeqOK(r.beats) /\ SeqOK(r.downs) /\ SeqOK(r.bars) /\ r.dur # NaN /\ r.dur >= 0 /\ r.time>>,
  <<"C03.key", r.key \in 0..23>>,
  <<"C03.report", \A i \in DOMAIN r.overall : Unit(r.overall[i])>>,
  <<"C03.candidates", \A i \in DOMAIN r.cands : \A j \in 1..4 : r.cands[i][j] # NaN /\ r.cands[i][j] >= 0>>,
  <<"C05.ordered", r.order /\ r.nested /\ r.bars = r.downs /\ (r.beats # <<>> => r.downs # <<>> /\ r.downs[1] = r.beats[1])>>,
  <<"C05.no_tempo_no_grid", r.bpm = 0 => r.beats = <<>> /\ r.downs = <<>> /\ r.bars = <<>> /\ r.stab = 0>>,
  <<"C15.empty", r.bpm = 0 => r.conf = 0 /\ r.beats = <<>> >>,
  <<"C22.warnings", LET W == { r.warn[i][1] : i \in DOMAIN r.warn }  N == Warnings(r.bpm, r.stab, r.kconf, r.clarity) IN
       /\ Cardinality(W) = Len(r.warn) /\ W \ Edge(r.stab, r.kconf, r.clarity) = N \ Edge(r.stab, r.kconf, r.clarity) >>,
  <<"C22.quoted", \A i \in DOMAIN r.warn : LET v == CASE r.warn[i][1] = "grid" -> r.stab [] r.warn[i][1] = "key" -> r.kconf [] r.warn[i][1] = "clarity" -> r.clarity [] OTHER -> 0
                                          IN r.warn[i][1] = "bpm" \/ Near(r.warn[i][2] * 10000, v, 5010)>>,
  <<"C22.flags", (r.flags = <<"WeakTonality">> /\ r.clarity <= 200000) \/ (r.flags = <<>> /\ r.clarity >= 200000)>>,
  <<"C22.rate", r.sr = e.o.sr>>,
  <<"C29.stored", r.stored>>,
  <<"C22.duration", (e.trimmed.left \div Max2(1, e.o.sr)) > 600 \/ e.o.sr > 1000000 \/ Near(r.dur, DivM(e.trimmed.left, e.o.sr), 40)>>,
  <<"C22.fixed", r.version = "0.1.0-alpha" /\ r.methods = <<"energy_flux", "chroma_extraction", "key_detection">> >>,
  <<"C22.onsets", r.onsets = (IF e.counts[1] = 0 THEN 0 ELSE M)>>,
  <<"C22.attached", r.emitted => e.c.emit>>,
  <<"C16.truth", (Yes(r.used) => Yes(r.trig)) /\ (Yes(r.pused) => Yes(r.ptrig) /\ e.c.percussive) /\ (Yes(r.ptrig) => Yes(r.trig)) /\ (r.trig # "none" => e.c.multi /\ ~e.c.force)>>,
  <<"C04.when_asked", (r.emitted => e.c.emit /\ ~e.c.force) /\ Len(r.cands) <= e.c.topn>>,
  <<"C04.ranked", \A i \in 1..(Len(r.cands) - 1) : r.cands[i][2] >= r.cands[i + 1][2]>>,
  <<"C04.distinct", Cardinality({ r.cands[i][1] : i \in DOMAIN r.cands }) = Len(r.cands)>> >>)
InRange(x) == x >= e.c.min - 2 /\ x <= e.c.max + 2
Ranged(r) == Failed(<<
  <<"C04.range", r.bpm = 0 \/ InRange(r.bpm)>>,
  <<"C04.candidate_range", \A i \in DOMAIN r.cands : InRange(r.cands[i][1])>> >>)
RangeKnown == e.c.min # NaN /\ e.c.max # NaN /\ e.c.min > 0 /\ e.c.min < e.c.max /\ e.c.max <= 6000000

\* --- the report against the final state
Chosen == IF Yes(e.r.pused) THEN e.perc ELSE IF Yes(e.r.used) THEN e.mr ELSE e.base
Runs == TempoRuns(e.c, e.frames) /\ e.base.st = "ok"
Bits == IF e.c.force \/ ~s.temp.ok \/ (e.c.fusion /\ s.temp.bpm <= 0) THEN e.legacy[Idx].bits ELSE Chosen.bits
Decided == LET r == e.r IN
  Failed(<<
    <<"C15.source", r.bits = Bits>>,
    <<"C15.confidence", Near(r.conf, s.tempo.conf, 10)>>,
    <<"C14.same_without_list", TempoRuns(e.c, e.frames) => e.plain.st = e.base.st /\ e.plain.bits = e.base.bits /\ e.plain.est = e.base.est>>,
    <<"C14.reported", Runs /\ ~e.c.force /\ ~Yes(r.used) /\ ~Yes(r.pused) /\ e.base.est.bpm > 0 => r.bits = e.base.bits /\ (r.emitted => r.cdig = e.base.dig)>>,
    <<"C14.confidence", Runs /\ ~e.c.force /\ ~e.c.fusion /\ ~Yes(r.used) /\ ~Yes(r.pused) /\ e.base.est.bpm > 0 => Near(r.conf, e.base.est.conf, 10)>>,
    <<"C28.reported", Runs /\ ~e.c.force /\ Yes(r.used) /\ ~Yes(r.pused) /\ e.mr.st = "ok" => r.bits = e.mr.bits /\ (r.emitted => r.cdig = e.mr.dig)>>,
    <<"C16.trigger_flag", IF Runs /\ e.c.multi THEN r.trig # "none" /\ (Yes(r.trig) => MayTrigger(e.base.est, Sup)) /\ (MustTrigger(e.base.est, Sup) => Yes(r.trig)) ELSE r.trig = "none">>,
    <<"C16.use", IF Runs /\ e.c.multi THEN r.used # "none" /\ (Yes(r.used) => e.mr.st = "ok" /\ MayUse(e.base.est, e.mr.est)) /\ (Yes(r.trig) /\ e.mr.st = "ok" /\ MustUse(e.base.est, e.mr.est) => Yes(r.used))
                 ELSE r.used = "none">>,
    <<"C16.no_promotion", Yes(r.used) \/ Yes(r.pused) => e.base.est.bpm > BPM(180) + E4 \/ s.temp.bpm <= BPM(180) + E4>>,
    <<"C16.percussive_flag", IF Runs /\ e.c.multi THEN r.ptrig # "none" /\ (Yes(r.ptrig) => Yes(r.trig) /\ TrapLow(e.base.est, 1)) /\ (Yes(r.trig) /\ TrapLow(e.base.est, -1) => Yes(r.ptrig)) ELSE r.ptrig = "none">>,
    <<"C16.percussive_use", LET x == IF Yes(r.used) THEN e.mr.est ELSE e.base.est IN
        IF Runs /\ e.c.multi /\ e.c.percussive
        THEN r.pused # "none" /\ (Yes(r.pused) => e.perc.st = "ok" /\ PWins(e.base.est, x, e.perc.est, 1)) /\ (Yes(r.ptrig) /\ e.perc.st = "ok" /\ PWins(e.base.est, x, e.perc.est, -1) => Yes(r.pused))
        ELSE r.pused = "none">>,
    <<"C22.list", r.emitted = (e.c.emit /\ Runs) /\ (r.emitted => r.cdig = Chosen.dig)>>,
    <<"C04.selected", r.emitted /\ Runs => \A i \in DOMAIN r.cands : r.cands[i][5] = 1 => Near(r.cands[i][1], Chosen.est.bpm, 7520)>>,
    <<"C04.list", r.emitted = (e.c.emit /\ Runs)>>,
    <<"C05.tracked", IF s.grid = "tracked" THEN r.grid = e.grids[Idx].dig /\ r.stab = e.grids[Idx].stab ELSE r.beats = <<>> /\ r.stab = 0>>,
    <<"C05.within_audio", r.beats # <<>> => r.beats[Len(r.beats)] <= (r.dur \div 100) + 600000 \div Max2(1, r.bpm \div 10000) + 1000>>,
    <<"C27.key", r.key = e.plan.key \/ (r.kconf < 100 /\ e.plan.conf < 100)>>,
    <<"C27.scores", Near(r.kconf, e.plan.conf, 300) /\ Near(r.clarity, e.plan.clarity, 300)>>,
    <<"C27.kept", e.trimsw /\ e.plan.b > 0 /\ e.plan.how # "none" => LET t == Kept(e.plan.n, e.c.edge) IN Near(e.plan.a, t[1], 1) /\ Near(e.plan.b, t[2], 1)>>,
    <<"C27.too_short", e.trimmed.left < e.c.frame => r.key = 0 /\ r.kconf = 0 /\ r.clarity = 0>>,
    <<"C23.input_untouched", e.untouched>> >>)

Ends == LET E == e IN
  IF s.err # "" THEN Failed(<< <<"C02.refused", e.st = s.err>>, <<"C02.class", e.st # "ok" => e.st = s.err>> >>)
  ELSE IF ~Good THEN {"C02.rejected"}
  ELSE Plausible(e.r) \cup (IF RangeKnown THEN Ranged(e.r) ELSE {}) \cup (IF e.ev = "analysis" THEN Decided ELSE {})
       \cup Failed(<< <<"C23.input_untouched", e.untouched>> >>)
LastStep == IF e.ev = "analysis" /\ Good THEN "done" ELSE "tempogram"
Over == Crashed(e) \/ e.st = "panic" \/ s.err # "" \/ Phases[s.phase] = LastStep
Bad == IF Crashed(e) \/ e.st = "panic" THEN {"C01.analysis"}
       ELSE Ends \cup (IF e.ev = "robust" THEN Failed(<< <<"C02.usable", e.usable => e.st = "ok">> >>) ELSE {})
Init == l = 1 /\ s = Start
Next == l <= Len(Trace) /\ IF Over THEN Report(e, l, Bad) /\ l' = l + 1 /\ s' = Start
                           ELSE s' = Step /\ l' = l
Spec == Init /\ [][Next]_<<l, s>>
Consumed == TLCGet("stats").distinct > Len(Trace)
=============================================================================
