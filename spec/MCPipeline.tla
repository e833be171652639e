----------------------------- MODULE MCPipeline -----------------------------
(* Every configuration against every combination of stage outcomes.            *)
EXTENDS Pipeline
CONSTANTS Bpms, Confs
VARIABLES c, s, base, from
vars == <<c, s, base, from>>
Bool == {TRUE, FALSE}
Errs == {"ok", "InvalidInput", "ProcessingError", "NumericalError"}
Est == { [ok |-> TRUE, bpm |-> BPM(b), conf |-> x * 10000, agree |-> a] : b \in Bpms, x \in Confs, a \in {0, 2} }
Leg == { None } \cup { [ok |-> TRUE, bpm |-> BPM(b), conf |-> 800000, agree |-> 1] : b \in {61, 120} }
Sup == { [at |-> <<500000, 500000>>, twice |-> <<0, 0>>, half |-> <<0, 0>>], [at |-> <<500000, 500000>>, twice |-> <<480000, 480000>>, half |-> <<0, 0>>] }
Init == c \in [normalize : Bool, trim : Bool, consensus : Bool, force : Bool, fusion : Bool, multi : Bool, percussive : Bool, emit : {TRUE}]
        /\ s = Start /\ base = None /\ from = "none"
At(p) == s.err = "" /\ Phases[s.phase] = p
Same == UNCHANGED <<c, base, from>>
Sites(p) == Same /\ At(p)
Next ==
  \/ Sites("accept") /\ \E n, sr \in {0, 1} : \E f \in Bool : s' = Accept(s, [n |-> n, sr |-> sr, finite |-> f])
  \/ Sites("normalize") /\ \E st \in Errs : s' = Normalize(s, c, st)
  \/ Sites("trim") /\ \E st \in Errs : \E n \in {0, 9} : s' = Trim(s, c, [st |-> st, left |-> n])
  \/ (Sites("onsets") \/ Sites("spectrum")) /\ \E st \in Errs : s' = Mandatory(s, st)
  \/ Sites("vote") /\ \E st \in Errs : \E a \in 0..1 : \E b \in a..1 : \E f \in 0..1 : s' = Vote(s, c, [frames |-> f, st |-> st, strong |-> a, any |-> b])
  \/ Sites("legacy") /\ \E n \in {1, 2} : \E st \in Errs : \E e \in Leg : s' = Legacy(s, n, [st |-> st, est |-> e])
  \/ At("tempogram") /\ \E f \in 0..1 : \E st \in Errs : \E e \in Est :
       s' = Tempogram(s, c, f, [st |-> st, est |-> e]) /\ base' = s'.temp /\ from' = (IF s'.temp.ok THEN "base" ELSE "none") /\ UNCHANGED c
  \/ At("multires") /\ \E u \in Sup : \E m \in {None} \cup Est : \E t, w \in Bool :
       /\ (t => MayTrigger(base, u)) /\ (MustTrigger(base, u) => t)
       /\ (w => t /\ m.ok /\ MayUse(base, m)) /\ (t /\ m.ok /\ MustUse(base, m) => w)
       /\ s' = MultiRes(s, c, base, u, m, t, w) /\ from' = (IF w /\ s'.used = "yes" THEN "mr" ELSE from) /\ UNCHANGED <<c, base>>
  \/ At("percussive") /\ \E p \in {None} \cup Est : \E t, w \in Bool :
       /\ (t => s.trig = "yes" /\ TrapLow(base, 1)) /\ (s.trig = "yes" /\ TrapLow(base, -1) => t)
       /\ (w => c.percussive /\ t /\ p.ok /\ PWins(base, s.temp, p, 1)) /\ (c.percussive /\ t /\ p.ok /\ PWins(base, s.temp, p, -1) => w)
       /\ s' = Percussive(s, c, p, t, w) /\ from' = (IF w /\ s'.pused = "yes" THEN "perc" ELSE from) /\ UNCHANGED <<c, base>>
  \/ Sites("select") /\ \E t \in Reported(s, c) : s' = Select(s, t)
  \/ Sites("grid") /\ \E n \in {1, 2} : \E st \in Errs : s' = Grid(s, n, st)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == s.err = "" /\ Phases[s.phase] = "done"
\* C01: every analysis ends
Terminates == <>Ended(s)
\* C02: only the input, the normalization, the trimming, the energy onsets, the spectrum and the onset-based tempo can refuse
Optional == {"vote", "tempogram", "multires", "percussive", "select", "grid"}
OnlyMandatory == s.err # "" => Phases[s.phase] \notin Optional
SwitchedOff == (s.err # "" /\ Phases[s.phase] = "normalize" => c.normalize) /\ (s.err # "" /\ Phases[s.phase] = "trim" => c.trim)
\* C15: where the tempo comes from
Source == Done => /\ (c.force => s.tempo = s.legacy)
                  /\ (~c.force /\ s.temp.ok /\ s.temp.bpm > 0 => s.tempo.bpm = s.temp.bpm)
                  /\ (~c.force /\ ~s.temp.ok => s.tempo = s.legacy)
                  /\ (~c.force /\ ~c.fusion /\ s.temp.ok => s.tempo = s.temp)
                  /\ (s.tempo.bpm = 0 => s.tempo.conf = 0 /\ s.grid = "empty")
FusionMoves == (Done /\ c.fusion /\ ~c.force /\ s.temp.ok /\ s.legacy.ok) =>
                 IF Agree(s.legacy, s.temp, -1) THEN s.tempo.conf >= s.temp.conf ELSE Agree(s.legacy, s.temp, 1) \/ s.tempo.conf <= s.temp.conf
\* C16: escalation and what it may do
Truth == /\ (s.used = "yes" => s.trig = "yes") /\ (s.pused = "yes" => s.ptrig = "yes" /\ c.percussive) /\ (s.ptrig = "yes" => s.trig = "yes")
         /\ (s.trig # "none" => c.multi /\ ~c.force) /\ (s.pused # "none" => c.percussive)
         /\ (Done => (from = "mr" => s.used = "yes") /\ (from = "perc" <=> s.pused = "yes"))
NoPromotion == base.ok /\ base.bpm <= BPM(180) /\ s.temp.ok => s.temp.bpm <= BPM(180) + E4
\* a tempo outside every confusion zone, without rivals and with support, is left alone
LeftAlone == Done /\ base.ok /\ s.trig = "no" => s.temp = base
Lists == Done => s.cand = (IF ~s.temp.ok THEN "none" ELSE IF s.pused = "yes" THEN "perc" ELSE IF s.used = "yes" THEN "mr" ELSE "base")
=============================================================================
