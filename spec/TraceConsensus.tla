--------------------------- MODULE TraceConsensus ---------------------------
EXTENDS Consensus, TraceKit
VARIABLE l
JudgeOk(e) ==
  LET v == Votes(e.lists)
      cs == Clusters(v, e.tol)
      \* the reported candidate that stands for cluster c: same centre (up to rounding)
      match(c) == { k \in DOMAIN e.out : Abs(e.out[k].t * Len(c) - SumT(c)) < Len(c) }
      ok(c, o) == /\ o.voted = Cardinality(Methods(c))
                  /\ o.conf # NaN /\ Near(o.conf, Confidence(c, e.w), 3)
  IN Failed(<<
    <<"C10.count",  Len(e.out) = Len(cs)>>,
    <<"C10.centre", \A k \in DOMAIN cs : match(cs[k]) # {}>>,
    <<"C10.votes",  \A k \in DOMAIN cs : \E j \in match(cs[k]) : e.out[j].voted = Cardinality(Methods(cs[k]))>>,
    <<"C10.weight", \A k \in DOMAIN cs : \E j \in match(cs[k]) : ok(cs[k], e.out[j])>>,
    <<"C10.order",  \A k \in 1..(Len(e.out) - 1) : e.out[k].conf >= e.out[k + 1].conf>>,
    <<"C10.range",  \A k \in DOMAIN e.out : Unit(e.out[k].conf)>>,
    <<"C10.time",   \A k \in DOMAIN e.out : Fin(e.out[k].s) /\ Near(e.out[k].s, e.out[k].ts, 2 + e.out[k].ts \div 1000000)>> >>)
Judge(e) == IF Crashed(e) \/ e.status = "panic" THEN {"C10.total", "C01.stage"}
            ELSE IF e.status # "ok" THEN {"C10.ok"}
            ELSE JudgeOk(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
