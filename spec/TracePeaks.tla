----------------------------- MODULE TracePeaks -----------------------------
(* Events                                                                       *)
(*  "pick"   integer spectrogram, detector det in {"hfc","hpss","spectral"},     *)
(*           percentile num/den; exact                                          *)
(*  "level"  energy detector on blocks of constant amplitude (integer levels),   *)
(*           threshold thr/1000 of the largest rise                              *)
(*  "curve"  real signals/spectrograms: rise curve r in units of the largest     *)
(*           rise (millionths), index idx of the percentile or thr               *)
(*  "pct", "mad"  the threshold helpers on integer values (sixteenths)           *)
(*  "nothr"  threshold helpers with unusable arguments                           *)
(*  "scaled" the same call with all data scaled by a power of two               *)
EXTENDS Peaks, TraceKit
VARIABLE l
ToS(s) == { s[i] : i \in DOMAIN s }
Ordered(e) == \A i \in 1..(Len(e.out) - 1) : e.out[i] < e.out[i + 1]
Levels(e) == IF e.det = "hfc" THEN [i \in DOMAIN e.fr |-> HfcLevel(e.fr[i])] ELSE [i \in DOMAIN e.fr |-> EnergyLevel(e.fr[i])]
RisesOf(e) == IF e.det = "spectral" THEN SpectralRises(e.fr) ELSE Rises(Levels(e))
JudgePick(e) ==
  LET r == RisesOf(e) IN Failed(<<
    <<"C11.order", Ordered(e)>>,
    <<"C11.range", \A i \in DOMAIN e.out : e.out[i] >= 1 /\ e.out[i] < Len(e.fr)>>,
    <<"C11.exact", ToS(e.out) = PctOnsets(r, e.num, e.den)>> >>)
JudgeLevel(e) ==
  LET r == Rises(e.lv)
      mx == IF r = <<>> THEN 0 ELSE SeqMax(r)
      want == IF mx = 0 THEN {} ELSE Onsets(r, LAMBDA x : x * 1000 > mx * e.thr)
      inb == { i \in want : i * e.hop < e.n }
  IN Failed(<<
    <<"C11.order", Ordered(e)>>,
    <<"C11.range", \A i \in DOMAIN e.out : e.out[i] >= 0 /\ e.out[i] < e.n>>,
    <<"C11.energy", ToS(e.out) = { i * e.hop : i \in inb }>> >>)
JudgeCurve(e) ==
  LET t == IF e.idx > 0 THEN Percentile(e.r, e.idx) ELSE e.thr
      got == ToS(e.out)
  IN Failed(<<
    <<"C11.order", Ordered(e)>>,
    <<"C11.must", Must(e.r, t, e.eps) \subseteq got>>,
    <<"C11.may",  got \subseteq May(e.r, t, e.eps)>> >>)
Judge(e) ==
  IF Crashed(e) THEN {"C11.total", "C01.stage"}
  ELSE IF e.status = "panic" THEN {"C11.total", "C01.stage"}
  ELSE IF e.ev = "nothr" THEN Failed(<< <<"C02.threshold", e.status = "InvalidInput">> >>)
  ELSE IF e.status # "ok" THEN {"C11.ok"}
  ELSE CASE e.ev = "pick" -> JudgePick(e)
         [] e.ev = "level" -> JudgeLevel(e)
         [] e.ev = "curve" -> JudgeCurve(e)
         [] e.ev = "pct" -> Failed(<< <<"C11.percentile", e.out = 16 * Percentile(e.v, PctIndex(Len(e.v), e.num, 16))>> >>)
         [] e.ev = "mad" -> Failed(<< <<"C11.robust", e.out = Robust16(e.v, e.k4)>> >>)
         [] e.ev = "scaled" -> Failed(<< <<"C11.scale", e.out = e.out2>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
