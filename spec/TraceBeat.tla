----------------------------- MODULE TraceBeat -----------------------------
(* Events                                                                       *)
(*  "hmm"   tracking: ons, bpm -> beats, conf                                   *)
(*  "segs"  tempo segments: beats, bpm -> segs, any                             *)
(*  "meter" beats -> bpb, conf                                                  *)
(*  "grid"  the whole grid: ons, bpm -> beats, down, bars, stab; with the       *)
(*          stages' own outcomes (hmm, segs) on the same data                    *)
(*  "shift" / "perm": the same call on shifted / permuted onsets                *)
EXTENDS Beat, Exp, TraceKit
VARIABLE l
Sorted(s) == SortSeq(s, <)
ConfWant(d) == (7 * ExpNeg(2 * ((d * d) \div 25))) \div 10 + (IF d < 5000 THEN (3 * (M - d * 200)) \div 10 ELSE 0)
JudgeHmm(e) ==
  IF e.ons = <<>> \/ e.bpm <= 0 \/ e.bpm > 30000 THEN Failed(<< <<"C02.hmm_reject", e.status = "InvalidInput">> >>)
  ELSE IF e.status # "ok" THEN {"C06.tracks"}
  ELSE Failed(<<
    <<"C06.lattice", IsTracked(e.beats, e.ons, e.bpm, RefineTol)>>,
    <<"C05.order", GridOrdered(e.beats)>>,
    <<"C06.once", Cardinality({e.beats[i] : i \in DOMAIN e.beats}) = Len(e.beats)>>,
    <<"C03.conf", \A i \in DOMAIN e.conf : Unit(e.conf[i])>>,
    <<"C06.conf", \A i \in DOMAIN e.beats : Near(e.conf[i], ConfWant(Dist(e.beats[i], e.ons)), 6000)>> >>)

\* windows that certainly yield a segment / may yield one
LenIn(e, a, b, t) == Len(SelectSeq(e.beats, LAMBDA x : x >= a - t /\ x <= b + t))
SegFor(e, s, k) == Near(s.a, WinStart(e.beats, k), 40) /\ Near(s.b, WinEnd(e.beats, k), 40)
SegOk(e, s) == LET g == Gaps(InWin(e.beats, s.a, s.b)) IN
  Failed(<<
    <<"C25.tempo", g # <<>> /\ Near(s.bpm * (Mean(g) \div 10), 60000000, Mean(g) \div 10 + s.bpm + 24000)>>,
    <<"C25.variable", (Cv4(g) > 1515 => s.var) /\ (Cv4(g) < 1485 => ~s.var)>>,
    <<"C25.conf", Near(s.conf, SegConf(g), 4000)>> >>)
JudgeSegs(e) ==
  IF e.status # "ok" THEN {"C25.ok"}
  ELSE LET one == Len(e.segs) = 1 IN
  UNION {
    Failed(<<
      <<"C25.some", e.segs # <<>>>>,
      <<"C25.order", \A i \in 1..(Len(e.segs) - 1) : e.segs[i].a < e.segs[i + 1].a>>,
      <<"C25.span", \A i \in DOMAIN e.segs : e.segs[i].a <= e.segs[i].b /\ (e.beats # <<>> => e.segs[i].a >= e.beats[1] - 2 /\ e.segs[i].b <= e.beats[Len(e.beats)] + 2)>>,
      <<"C03.segconf", \A i \in DOMAIN e.segs : Unit(e.segs[i].conf)>>,
      <<"C25.any", e.any = (\E i \in DOMAIN e.segs : e.segs[i].var)>> >>),
    IF Len(e.beats) < 4 \/ (Short(e.beats) /\ e.beats[Len(e.beats)] - e.beats[1] < 2 * Sec - 3)
    THEN Failed(<< <<"C25.short", one /\ ~e.segs[1].var /\ Near(e.segs[1].bpm, e.bpm, 1)
                      /\ (e.beats # <<>> => e.segs[1].a = e.beats[1] /\ e.segs[1].b = e.beats[Len(e.beats)])>> >>)
    ELSE IF e.beats[Len(e.beats)] - e.beats[1] < 2 * Sec + 3 THEN {}
    ELSE LET nw == NumWin(e.beats)
             must == { k \in 1..(nw - 1) : LenIn(e, WinStart(e.beats, k), WinEnd(e.beats, k), -45) >= 3 }
             may == { k \in 1..(nw + 1) : LenIn(e, WinStart(e.beats, k), WinEnd(e.beats, k), 45) >= 3 }
         IN UNION {
           Failed(<< <<"C25.windows", \A k \in must : \E i \in DOMAIN e.segs : SegFor(e, e.segs[i], k)>>,
                     <<"C25.nomore", may # {} => \A i \in DOMAIN e.segs : (\E k \in may : SegFor(e, e.segs[i], k)) \/ (must = {} /\ one /\ e.segs[1].a = e.beats[1])>> >>),
           UNION { IF ~Edgy(e.beats, e.segs[i].a, e.segs[i].b) /\ (\E k \in may : SegFor(e, e.segs[i], k)) /\ Len(InWin(e.beats, e.segs[i].a, e.segs[i].b)) >= 3
                   THEN SegOk(e, e.segs[i]) ELSE {} : i \in DOMAIN e.segs } } }

JudgeMeter(e) ==
  IF e.status # "ok" THEN {"C25.meter_ok"}
  ELSE LET g == Gaps(e.beats) IN
       Failed(<<
         <<"C25.meter_default", Len(e.beats) < 8 => e.bpb = 4 /\ e.conf = 500000>>,
         <<"C25.meter", Len(e.beats) >= 8 => MeterOk(g, e.bpb, 400)>>,
         <<"C25.meter_conf", Len(e.beats) >= 8 /\ e.bpb \in {3, 4, 6} => Near(e.conf, MeterScore(g, e.bpb), 600)>>,
         <<"C03.meter_conf", Unit(e.conf)>> >>)

Const(e) == \A i \in DOMAIN e.segs : ~e.segs[i].var
SeqNear(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], t)
BarsOk(e) == \E bpb \in {3, 4, 6} : IsDownbeats(e.beats, {e.down[i] : i \in DOMAIN e.down}, BarLen(bpb, e.bpm), 12)
                                    /\ (IF Len(e.beats) < 8 THEN bpb = 4 ELSE MeterOk(Gaps(e.beats), bpb, 400))
JudgeGrid(e) ==
  IF e.ons = <<>> \/ e.bpm <= 0 \/ e.bpm > 30000 THEN Failed(<< <<"C02.grid_reject", e.status = "InvalidInput">> >>)
  ELSE IF e.status # "ok" THEN {"C06.grid_ok"}
  ELSE LET s == Sorted(e.ons) IN Failed(<<
    <<"C05.order", GridOrdered(e.beats)>>,
    <<"C05.nested", Nested(e.beats, e.down, e.bars)>>,
    <<"C05.apart", \A i \in 1..(Len(e.beats) - 1) : e.beats[i + 1] - e.beats[i] >= SameBeat - 2>>,
    <<"C05.span", \A i \in DOMAIN e.beats : e.beats[i] >= s[1] - RefineTol /\ e.beats[i] <= s[Len(s)] + Radius + RefineTol>>,
    <<"C05.bars", GridOrdered(e.beats) => BarsOk(e)>>,
    <<"C05.support", \A i \in DOMAIN e.beats : Dist(e.beats[i], s) < Radius + RefineTol>>,
    <<"C06.constant", Const(e) => IsTracked(e.beats, s, e.bpm, RefineTol)>>,
    <<"C05.refined", (~Const(e) /\ Clear(e.hmm, e.segs)) => SeqNear(e.beats, Refined(e.hmm, e.segs), 2)>>,
    <<"C03.stability", Unit(e.stab)>>,
    <<"C06.stability", Near(e.stab, Stability(e.beats), 400)>> >>)
Judge(e) ==
  IF Crashed(e) THEN {"C01.beat", "C05.total", "C06.total", "C25.total"}
  ELSE IF e.status = "panic" THEN {"C01.beat", "C05.total", "C06.total", "C25.total"}
  ELSE CASE e.ev = "hmm" -> JudgeHmm(e)
         [] e.ev = "segs" -> JudgeSegs(e)
         [] e.ev = "meter" -> JudgeMeter(e)
         [] e.ev = "grid" -> JudgeGrid(e)
         [] e.ev = "perm" -> Failed(<< <<"C05.perm", e.same>> >>)
         [] e.ev = "bad" -> Failed(<< <<"C02.beat_reject", e.status = "InvalidInput">> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
