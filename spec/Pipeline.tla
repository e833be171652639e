------------------------------ MODULE Pipeline ------------------------------
(* One analysis as a state machine over its stages. A state is a record        *)
(*   phase   the stage the analysis has to take next                           *)
(*   err     "" or the error class the analysis ended with                     *)
(*   onsets  which onset list is in force: energy, strong or any               *)
(*   legacy, temp   the two tempo estimates (None when there is none)          *)
(*   trig, used, ptrig, pused   what happened: none, no or yes                 *)
(*   cand    whose candidate list is attached: none, base, plain, mr, perc     *)
(*   tempo   the reported tempo                                                *)
(* A stage is a function of the state and of what the stage itself returned.   *)
(* An estimate is [ok, bpm (1/10000), conf (millionths), agree]; conf and bpm  *)
(* carry rounding, so a decision about an estimate is made for a slack s:      *)
(* with s = 1 the condition is taken leniently, with s = -1 strictly.          *)
EXTENDS Base
None == [ok |-> FALSE, bpm |-> 0, conf |-> 0, agree |-> 0]
Phases == <<"accept", "normalize", "trim", "onsets", "spectrum", "vote", "legacy", "tempogram", "multires", "percussive", "select", "grid", "done">>
Start == [phase |-> 1, err |-> "", onsets |-> "energy", legacy |-> None, temp |-> None,
          trig |-> "none", used |-> "none", ptrig |-> "none", pused |-> "none", cand |-> "none", tempo |-> None, grid |-> "empty"]
Ended(s) == s.err # "" \/ Phases[s.phase] = "done"
Goes(s) == [s EXCEPT !.phase = @ + 1]
Fails(s, class) == [s EXCEPT !.err = class]
\* a stage whose failure ends the analysis
Mandatory(s, st) == IF st = "ok" THEN Goes(s) ELSE Fails(s, st)

Accept(s, o) == IF o.n = 0 \/ o.sr = 0 \/ ~o.finite THEN Fails(s, "InvalidInput") ELSE Goes(s)
Normalize(s, c, st) == IF c.normalize THEN Mandatory(s, st) ELSE Goes(s)
Trim(s, c, o) == IF ~c.trim THEN Goes(s)
                 ELSE IF o.st # "ok" THEN Fails(s, o.st)
                 ELSE IF o.left = 0 THEN Fails(s, "ProcessingError") ELSE Goes(s)
\* onsets several methods confirm, else any consensus onset, else those of the energy
Vote(s, c, o) == Goes(IF ~c.consensus \/ o.frames = 0 \/ o.st # "ok" THEN s
                      ELSE IF o.strong > 0 THEN [s EXCEPT !.onsets = "strong"]
                      ELSE IF o.any > 0 THEN [s EXCEPT !.onsets = "any"] ELSE s)
Legacy(s, count, o) == IF count < 2 THEN Goes(s)
                       ELSE IF o.st # "ok" THEN Fails(s, o.st)
                       ELSE Goes([s EXCEPT !.legacy = o.est])
TempoRuns(c, frames) == ~c.force /\ frames > 0
\* base: outcome of the tempogram; plain: the configuration has no escalation
Tempogram(s, c, frames, o) ==
  IF ~TempoRuns(c, frames) \/ o.st # "ok" THEN Goes(s)
  ELSE Goes([s EXCEPT !.temp = o.est, !.cand = IF c.emit THEN "base" ELSE "none"])

BPM(x) == x * 10000
E4 == 20                                              \* slack on tempi
E6 == 4                                               \* slack on confidences
Within(x, lo, hi, s) == x >= BPM(lo) - s * E4 /\ x <= BPM(hi) + s * E4
TrapLow(b, s) == Within(b.bpm, 55, 80, s)
TrapHigh(b, s) == Within(b.bpm, 170, 200, s)
\* support of the tempo, of its double and its half in the candidate list: [at, twice, half], as pairs
\* <<least, greatest>> that rounding leaves open
Competes(sup, s) ==
  LET beats(x) == IF s = 1 THEN x[2] > 0 /\ x[2] * 10 + 10 * E6 >= sup.at[1] * 9
                  ELSE x[1] > E6 /\ x[1] * 10 - 10 * E6 >= sup.at[2] * 9
  IN beats(sup.twice) \/ beats(sup.half)
WeakFold(b, s) == (b.agree = 0 \/ b.conf < 60000 + s * E6) /\ Within(b.bpm, 85, 100, s)
Ambiguous(b, sup, s) == TrapLow(b, s) \/ TrapHigh(b, s) \/ Competes(sup, s) \/ WeakFold(b, s)

\* ratio of two tempi, the larger over the smaller, in thousandths
Rel(x, y) == IF x >= y THEN ((x \div 10) * 1000) \div Max2(1, y \div 10) ELSE ((y \div 10) * 1000) \div Max2(1, x \div 10)
Relative(x, y, s) == \E r \in {2000, 1500, 1333} : Abs(Rel(x, y) - r) < 50 + 2 * s
Promotes(b, m, s) == b.bpm <= BPM(180) + s * E4 /\ m.bpm > BPM(180) - s * E4
\* the share p percent of a confidence
Part(x, p) == ((x \div 10) * p) \div 10
Wins(b, m, s) ==
  /\ ~Promotes(b, m, -s)
  /\ \/ m.conf >= b.conf + 50000 - s * E6
     \/ m.agree > b.agree /\ m.conf >= Part(b.conf, 90) - s * 2 * E6
     \/ /\ TrapLow(b, s) \/ TrapHigh(b, s)
        /\ Relative(b.bpm, m.bpm, s)
        /\ m.conf >= Part(b.conf, 88) - s * 2 * E6
        /\ Within(m.bpm, 70, 180, s) \/ b.bpm > BPM(180) - s * E4
MultiRes(s, c, b, sup, m, trig, used) ==
  IF ~s.temp.ok \/ ~c.multi THEN Goes(s)
  ELSE Goes([s EXCEPT !.trig = IF trig THEN "yes" ELSE "no", !.used = IF used THEN "yes" ELSE "no",
                      !.temp = IF used THEN m ELSE @, !.cand = IF used /\ c.emit THEN "mr" ELSE @])
MayTrigger(b, sup) == Ambiguous(b, sup, 1)
MustTrigger(b, sup) == Ambiguous(b, sup, -1)
MayUse(b, m) == Wins(b, m, 1)
MustUse(b, m) == Wins(b, m, -1)

PWins(b, x, p, s) ==                                  \* b base, x chosen so far, p percussive
  /\ ~Promotes(x, p, -s)
  /\ Relative(x.bpm, p.bpm, s)
  /\ Within(p.bpm, 70, 180, s)
  /\ \/ p.conf >= x.conf + 40000 - s * E6
     \/ (TrapLow(b, s) \/ b.bpm < BPM(95) + s * E4) /\ p.conf >= Part(x.conf, 85) - s * 2 * E6
     \/ p.agree > x.agree /\ p.conf >= Part(x.conf, 92) - s * 2 * E6
Percussive(s, c, p, ptrig, pused) ==
  IF ~s.temp.ok \/ ~c.multi THEN Goes(s)
  ELSE Goes([s EXCEPT !.ptrig = IF ptrig THEN "yes" ELSE "no",
                      !.pused = IF ~c.percussive THEN "none" ELSE IF pused THEN "yes" ELSE "no",
                      !.temp = IF pused THEN p ELSE @, !.cand = IF pused /\ c.emit THEN "perc" ELSE @])

\* --- which tempo is reported
Agree(l, t, s) == \E r \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>} : Abs(l.bpm - (t.bpm * r[1]) \div r[2]) <= BPM(2) + s * E4
Fused(l, t) == { [t EXCEPT !.conf = x] : x \in
                 IF ~l.ok \/ l.bpm <= 0 THEN { Clamp(t.conf, 0, M) }
                 ELSE (IF Agree(l, t, 1) THEN { Clamp(Clamp(t.conf, 0, M) + (Clamp(l.conf, 0, M) * 12) \div 100, 0, M) } ELSE {})
                      \cup (IF ~Agree(l, t, -1) THEN { Part(Clamp(t.conf, 0, M), 90) } ELSE {}) }
Reported(s, c) ==
  IF c.force THEN {s.legacy}
  ELSE IF c.fusion THEN (IF s.temp.ok /\ s.temp.bpm > 0 THEN Fused(s.legacy, s.temp) ELSE {s.legacy})
  ELSE IF s.temp.ok THEN {s.temp} ELSE {s.legacy}
Select(s, t) == Goes([s EXCEPT !.tempo = t])
Grid(s, count, st) == Goes([s EXCEPT !.grid = IF s.tempo.bpm > 0 /\ count >= 2 /\ st = "ok" THEN "tracked" ELSE "empty"])

\* --- what the report has to say about the values it carries (hundredths of a millionth are not looked at)
Warnings(bpm, stability, kconf, clarity) ==
  (IF bpm = 0 THEN {"bpm"} ELSE {}) \cup (IF stability < 500000 THEN {"grid"} ELSE {})
  \cup (IF kconf < 300000 THEN {"key"} ELSE {}) \cup (IF clarity < 200000 THEN {"clarity"} ELSE {})
Edge(stability, kconf, clarity) ==                    \* warnings that rounding leaves open
  (IF stability = 500000 THEN {"grid"} ELSE {}) \cup (IF kconf = 300000 THEN {"key"} ELSE {}) \cup (IF clarity = 200000 THEN {"clarity"} ELSE {})
=============================================================================
