---------------------------- MODULE TraceMultiRes ----------------------------
(* "fuse"      cs: the candidates of the three resolutions; est and list: the   *)
(*             fused result; nov: novelty curve used for alignment              *)
(* "validate"  one spectrogram read at three hop sizes                          *)
EXTENDS MultiRes, TraceKit
VARIABLE l
Bind(F(_), x) == CHOOSE r \in { F(t) : t \in { TLCEval(x) } } : TRUE
JudgeFuse(e) ==
  LET around == TLCEval(Around(e.nov))
      align(b) == Aligns(e.nov, around, e.fpm, b)
      judge(R) ==
        LET hit == { r \in R : Near(r[1], e.est.b, EB) } IN Failed(<<
          <<"C28.tempo", hit # {}>>,
          <<"C28.confidence", hit # {} => \E r \in hit : LeadOk(r, e.est.c)>>,
          <<"C28.agreement", e.est.n \in Agreement(e.cs, e.est.b, e.tol)>>,
          <<"C28.candidates", e.same>>,
          <<"C28.selected", \A i \in DOMAIN e.list : IF Near(Abs(e.list[i][1] - e.est.b), 7500, EB) THEN TRUE ELSE (e.list[i][2] = 1) = (Abs(e.list[i][1] - e.est.b) < 7500)>>,
          <<"C04.mr_range", e.est.b >= e.min - 2 /\ e.est.b <= e.max + 2>>,
          <<"C03.mr_conf", Unit(e.est.c)>> >>)
  IN Bind(judge, Fuse(e, e.cs, align))
Judge(e) ==
  IF Crashed(e) THEN {"C28.total", "C01.stage"}
  ELSE IF e.status = "panic" THEN {"C28.total", "C01.stage"}
  ELSE IF e.ev = "fuse" THEN
    IF e.short THEN Failed(<< <<"C02.mr_short", e.status = "InvalidInput">> >>)
    ELSE IF \E i \in 1..3 : e.hops[i] # "ok" THEN Failed(<< <<"C28.fails", e.status = e.hops[CHOOSE i \in 1..3 : e.hops[i] # "ok" /\ \A j \in 1..(i - 1) : e.hops[j] = "ok"]>> >>)
    ELSE IF e.status # "ok" THEN {"C28.refused"}
    ELSE JudgeFuse(e)
  ELSE IF e.es = <<>> THEN Failed(<< <<"C28.none", e.status = "ProcessingError">> >>)
  ELSE IF e.status # "ok" THEN {"C28.refused"}
  ELSE LET hit == { r \in Validated(e.es) : Near(r.b, e.est.b, 3) /\ Near(r.c, e.est.c, 4) /\ r.n = e.est.n } IN
       Failed(<< <<"C28.validated", hit # {}>>, <<"C04.mr_range", e.est.b >= e.min - 3 /\ e.est.b <= e.max + 3>>, <<"C03.mr_conf", Unit(e.est.c)>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
