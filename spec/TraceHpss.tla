------------------------------ MODULE TraceHpss ------------------------------
(* "hpss"  small spectrogram with the two parts (ten-thousandths), compared with *)
(*         the model of the refinement and with the promises                    *)
(* "mask"  a harmonic-only helper: the part may not exceed the original          *)
(* "tone"/"click" a held tone / an isolated broadband frame in a larger          *)
(*         spectrogram: the share (millionths) that went to the right part      *)
EXTENDS Hpss, TraceKit
VARIABLE l
JudgeHpss(e) ==
  IF ~(Shape(e.x, e.h) /\ Shape(e.x, e.p)) THEN {"C12.shape"}
  ELSE IF \E t \in DOMAIN e.x : ~(FinSeq(e.h[t]) /\ FinSeq(e.p[t])) THEN {"C12.finite"}
  ELSE LET m == IF e.model THEN Decompose(e.x, e.g, 10) ELSE <<e.x, e.x, TRUE>> IN Failed(<<
    <<"C12.sum",   Conserved(e.x, e.h, e.p, 2)>>,
    <<"C12.part",  Part(e.x, e.h, 1) /\ Part(e.x, e.p, 1)>>,
    <<"C12.model", m[3] \/ (All(m[1], e.h, 80) /\ All(m[2], e.p, 80))>> >>)
JudgeMask(e) ==
  IF ~Shape(e.x, e.h) THEN {"C12.maskshape"}
  ELSE IF \E t \in DOMAIN e.x : ~FinSeq(e.h[t]) THEN {"C12.finite"}
  ELSE Failed(<< <<"C12.maskpart", Part(e.x, e.h, 1)>> >>)
Judge(e) ==
  IF Crashed(e) THEN {"C12.total", "C01.stage"}
  ELSE IF e.status = "panic" THEN {"C12.total", "C01.stage"}
  ELSE IF e.status # "ok" THEN {"C12.ok"}
  ELSE CASE e.ev = "hpss" -> JudgeHpss(e)
         [] e.ev = "mask" -> JudgeMask(e)
         [] e.ev = "share" -> Failed(<< <<"C12.share", e.share # NaN /\ e.share >= 990000>> >>)
         [] e.ev = "big" -> Failed(<< <<"C12.sum", e.err # NaN /\ e.err <= 5>>, <<"C12.part", e.neg = 0 /\ e.over = 0>>, <<"C12.shape", e.shape>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
