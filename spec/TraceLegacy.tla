---------------------------- MODULE TraceLegacy ----------------------------
(* Events                                                                       *)
(*  "merge"  ac, cb (candidates) -> out: sequence of [b, c, n, k] (k: bit       *)
(*           pattern of the confidence, ordered like the confidence)            *)
(*  "ac"     autocorrelation method on onset frames F                           *)
(*  "comb"   comb method at 1000 Hz                                             *)
(*  "select" guardrails and final choice: merged list, tops -> out              *)
(*  "peaks"  peak picking on an integer curve                                   *)
EXTENDS Legacy, TraceKit
VARIABLE l
Stable(e) == LET a == Merge(e.ac, e.cb, e.tol, 0)  p == Merge(e.ac, e.cb, e.tol, 4)  q == Merge(e.ac, e.cb, e.tol, -4)
             IN  /\ a = p /\ a = q
                 /\ \A i \in DOMAIN a : ~Near(a[i].b, 6000, 4) /\ ~Near(a[i].b, 18000, 4)
\* a perfect matching between what was reported and what the specification says
Matches(out, want) ==
  /\ Len(out) = Len(want)
  /\ \A i \in DOMAIN want : Cardinality({ j \in DOMAIN out : Near(out[j].b, want[i].b, 4) /\ out[j].n = want[i].n /\ Near(out[j].c, want[i].c, 60) })
                              >= Cardinality({ j \in DOMAIN want : want[j] = want[i] })
  /\ \A j \in DOMAIN out : \E i \in DOMAIN want : Near(out[j].b, want[i].b, 4) /\ out[j].n = want[i].n /\ Near(out[j].c, want[i].c, 60)
JudgeMerge(e) ==
  LET lo == FoldLeft(LAMBDA m, x : Min2(m, x.b), 10000000, e.ac \o e.cb)
      hi == FoldLeft(LAMBDA m, x : Max2(m, x.b), 0, e.ac \o e.cb)
      none == e.ac = <<>> /\ e.cb = <<>>
      st == CHOOSE r \in { Stable(e) } : TRUE
  IN Failed(<<
    <<"C13.empty", (e.out = <<>>) = none>>,
    <<"C13.range", \A i \in DOMAIN e.out : Fin(e.out[i].b) /\ e.out[i].b >= lo - 1 /\ e.out[i].b <= hi + 1>>,
    <<"C03.legacy", \A i \in DOMAIN e.out : Fin(e.out[i].c) /\ e.out[i].c >= 0>>,
    <<"C13.order", \A i \in 1..(Len(e.out) - 1) : Near(e.out[i].b, 6000, 1) \/ Near(e.out[i].b, 18000, 1) \/ Near(e.out[i + 1].b, 6000, 1) \/ Near(e.out[i + 1].b, 18000, 1)
                                     \/ Key(e.out[i]) >= Key(e.out[i + 1]) - 3>>,
    <<"C13.ties", \A i \in 1..(Len(e.out) - 1) : (e.out[i].k = e.out[i + 1].k /\ InRange(e.out[i].b) = InRange(e.out[i + 1].b)) => e.out[i].n >= e.out[i + 1].n>>,
    <<"C13.once", e.few => Sum([i \in DOMAIN e.out |-> e.out[i].n]) = Len(e.ac) + Len(e.cb)>>,
    <<"C13.exact", st => Matches(e.out, Merge(e.ac, e.cb, e.tol, 0))>> >>)

ToS(s) == { s[i] : i \in DOMAIN s }
JudgeAc(e) ==
  LET F == ToS(e.fr)
      n == Max(F) + 1
      A == [lag \in 0..(e.lmax + 1) |-> Acf(F, lag)]
      sl == e.lmin..e.lmax
      bpmOf(lag) == (6000 * e.sr + (lag * e.hop) \div 2) \div (lag * e.hop)
      ex == CHOOSE a \in { A } : TRUE
      mx(lo, hi) == Max({ ex[g] : g \in lo..hi })
      prom(g) == ex[g] - Max2(ex[g - 1], ex[g + 1])
      must == { g \in (e.lmin + 2)..(e.lmax - 2) : prom(g) > 0 /\ 10 * prom(g) > mx(e.lmin, e.lmax) }
      may == { g \in Max2(1, e.lmin)..e.lmax : prom(g) > 0 /\ 10 * prom(g) >= mx(e.lmin + 1, e.lmax - 1) }
      is(o, g) == Near(o.b, bpmOf(g), 2) /\ Near(o.c, (M * ex[g]) \div Cardinality(F), 200)
  IN IF Cardinality(F) < 1 \/ e.lmax + 1 >= n THEN Failed(<< <<"C13.ac_short", e.lmax >= n => e.out = <<>>>> >>)
     ELSE IF e.lmin + 3 >= e.lmax THEN {}
     ELSE Failed(<<
       <<"C13.ac_must", \A g \in must : \E i \in DOMAIN e.out : is(e.out[i], g)>>,
       <<"C13.ac_may", \A i \in DOMAIN e.out : \E g \in may : is(e.out[i], g)>>,
       <<"C13.ac_once", Len(e.out) <= Cardinality(may)>> >>)
Ranked(e) == Failed(<<
  <<"C13.ranked", \A i \in 1..(Len(e.out) - 1) : e.out[i].c >= e.out[i + 1].c - 1>>,
  <<"C03.cand", \A i \in DOMAIN e.out : Unit(e.out[i].c)>>,
  <<"C13.inrange", \A i \in DOMAIN e.out : e.out[i].b >= e.min - 1 /\ e.out[i].b <= e.max + 1>> >>)

CombB(e, i) == e.min + (i - 1) * e.res
NumComb(e) == (e.max - e.min) \div e.res + 1
JudgeComb(e) ==
  LET lastU == 100 * Max(ToS(e.ons))
      nbLo(b) == Ceil(lastU - 30, CombPer(1, b) + 1) + 1      \* the period is rounded down
      nbHi(b) == Ceil(lastU + 30, CombPer(1, b)) + 1
      lo(b) == Min({ (M * Aligned(e.ons, b, nb, -110)) \div nb : nb \in {nbLo(b), nbHi(b)} })
      hi(b) == Max({ (M * Aligned(e.ons, b, nb, 110)) \div nb + 1 : nb \in {nbLo(b), nbHi(b)} })
      T == [i \in 1..NumComb(e) |-> <<lo(CombB(e, i)), hi(CombB(e, i))>>]
  IN CHOOSE r \in { LET mlo == Max({ t[i][1] : i \in DOMAIN t })
                        mhi == Max({ t[i][2] : i \in DOMAIN t })
                        dv(a, b) == IF b = 0 THEN M ELSE Min2(M, DivM(Min2(a, b), b))
                        ix(o) == (o.b - e.min + e.res \div 2) \div e.res + 1
                    IN Failed(<<
                         <<"C13.comb_member", \A k \in DOMAIN e.out : ix(e.out[k]) \in DOMAIN t /\ Near(e.out[k].b, CombB(e, ix(e.out[k])), 2)>>,
                         <<"C13.comb_once", \A k, m \in DOMAIN e.out : k # m => e.out[k].b # e.out[m].b>>,
                         <<"C13.comb_conf", \A k \in DOMAIN e.out : ix(e.out[k]) \in DOMAIN t =>
                               /\ e.out[k].c >= dv(t[ix(e.out[k])][1], mhi) - 3000 /\ e.out[k].c <= dv(t[ix(e.out[k])][2], mlo) + 3000>>,
                         <<"C13.comb_all", \A i \in DOMAIN t : (mlo > 0 /\ dv(t[i][1], mhi) > 105000) => \E k \in DOMAIN e.out : Near(e.out[k].b, CombB(e, i), 2)>>,
                         <<"C13.comb_top", e.out # <<>> => e.out[1].c >= 999999>> >>)
                    : t \in { TLCEval(T) } } : TRUE

\* the final choice among the merged estimates
SelOk(e, d) ==
  LET g == Sane([e.g EXCEPT !.pmin = @ - d, !.pmax = @ + d, !.smin = @ - d, !.smax = @ + d])
      es == IF e.guard THEN Scaled(e.merged, g) ELSE e.merged
      pm == IF e.guard THEN g.pmin ELSE 6000 - d
      px == IF e.guard THEN g.pmax ELSE 18000 + d
      tops == { i \in DOMAIN e.ac : e.ac[i].b >= pm /\ e.ac[i].b <= px }
      top == IF tops = {} THEN 0 ELSE e.ac[Min(tops)].b
      near == { i \in DOMAIN es : top > 0 /\ Abs(es[i].b - top) < 200 + d }
      best == IF e.guard THEN { i \in DOMAIN es : \A j \in DOMAIN es : es[i].c >= es[j].c - 300 } ELSE {1}
      first == IF near = {} THEN best
               ELSE IF e.guard THEN { i \in near : \A j \in near : es[i].c >= es[j].c - 300 } ELSE { Min(near) }
  IN  \E i \in first : Near(e.out[1].b, es[i].b, 1) /\ e.out[1].n = es[i].n /\ Near(e.out[1].c, Min2(M, es[i].c), 300)
JudgeSelect(e) ==
  IF e.merged = <<>> THEN Failed(<< <<"C13.none", e.out = <<>>>> >>)
  ELSE IF e.out = <<>> THEN {"C13.lost"}
  ELSE Failed(<< <<"C13.selected", SelOk(e, 0) \/ SelOk(e, 2) \/ SelOk(e, -2)>>,
                 <<"C03.legacy_conf", Unit(e.out[1].c)>> >>)

\* peak picking: strict local maxima above the threshold, at least dist apart, highest first
PeakIdx(s) == { i \in DOMAIN s : (i = 1 \/ s[i] > s[i - 1]) /\ (i = Len(s) \/ s[i] > s[i + 1]) }
JudgePeaks(e) ==
  LET s == e.s
      mx == SeqMax(s)
      P == IF Len(s) < 3 \/ mx <= 0 THEN {} ELSE { i \in PeakIdx(s) : IF e.tnum > 0 /\ e.tnum < e.tden THEN e.tden * s[i] >= e.tnum * mx ELSE e.tden * s[i] >= e.tnum }
      got == { e.out[i][1] + 1 : i \in DOMAIN e.out }
  IN IF s = <<>> THEN Failed(<< <<"C13.nopeaks", e.out = <<>>>> >>)
     ELSE Failed(<<
       <<"C13.peaks", got \subseteq P>>,
       <<"C13.peak_value", \A i \in DOMAIN e.out : e.out[i][2] = s[e.out[i][1] + 1]>>,
       <<"C13.peak_order", \A i \in 1..(Len(e.out) - 1) : e.out[i][2] >= e.out[i + 1][2]>>,
       <<"C13.peak_apart", \A i, j \in DOMAIN e.out : i # j => e.out[i][1] # e.out[j][1] /\ Abs(e.out[i][1] - e.out[j][1]) >= e.dist>>,
       \* whatever is left out is too close to a reported peak at least as high
       <<"C13.peak_all", \A p \in P \ got : e.dist > 0 /\ \E g \in got : Abs(g - p) < e.dist /\ s[g] >= s[p]>> >>)

Judge(e) ==
  IF Crashed(e) THEN {"C13.total", "C01.legacy"}
  ELSE IF e.status = "panic" THEN {"C13.total", "C01.legacy"}
  ELSE IF e.ev = "bad" THEN Failed(<< <<"C02.legacy_reject", e.status = "InvalidInput">> >>)
  ELSE IF e.status # "ok" THEN {"C13.ok"}
  ELSE CASE e.ev = "merge" -> JudgeMerge(e)
         [] e.ev = "ac" -> JudgeAc(e) \cup Ranked(e)
         [] e.ev = "comb" -> JudgeComb(e) \cup Ranked(e)
         [] e.ev = "fine" -> Ranked(e)
         [] e.ev = "select" -> JudgeSelect(e)
         [] e.ev = "peaks" -> JudgePeaks(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
