------------------------------ MODULE TraceKey ------------------------------
(* Events                                                                      *)
(*  "key"     detection on integer frames (fr, w, set, tm): result r           *)
(*  "rel"     the same music rotated, scaled, reordered or padded              *)
(*  "own"     a key's own profile as sound; row: the profile itself            *)
(*  "heur"    detection with the mode heuristic; base: without it              *)
(*  "multi"   several time scales; rows: detections on every window            *)
(*  "median"  vote of windows; rows as above                                   *)
(*  "ens"     both template sets; x, y: their tables                           *)
(*  "clarity" distinctness of a score list                                     *)
(*  "bad"     malformed material                                               *)
(*  "changes" key changes over time                                            *)
EXTENDS Key, TraceKit
VARIABLE l

Rel(a, b, t) == Near(a, b, t + Abs(b) \div 40000)
ByKey(r) == [k \in Keys |-> r.sc[CHOOSE i \in 1..24 : r.order[i] = k]]
Perm(r) == Len(r.order) = 24 /\ { r.order[i] : i \in 1..24 } = Keys /\ Len(r.sc) = 24 /\ FinSeq(r.sc)
\* confidence: how far the chosen key leads the best other, from the reported scores
LeadOk(c, best, other) ==
  IF best <= 0 THEN c = 0
  ELSE IF best < 200 THEN Unit(c)
  ELSE Near(c, Lead(best, Max2(other, 0 - 100000000)), 3 + 3000000 \div best)
Shape(r, head) == <<
    <<"C18.permutation", Perm(r)>>,
    <<"C18.ranked", Descending(r.sc)>>,
    <<"C03.key_conf", Unit(r.c) /\ Unit(r.cl)>>,
    <<"C18.head", ~head \/ (Perm(r) => r.k = r.order[1])>>,
    <<"C18.top", Len(r.top) = 3 /\ \E i \in 1..3 : r.top[i] = r.k>>,
    <<"C18.clarity", IF Len(r.sc) >= 2 /\ FinSeq(r.sc) /\ SeqMax(r.sc) - SeqMin(r.sc) >= 1000
                     THEN Near(r.cl, Clarity(r.sc), 3 + 3000000 \div (SeqMax(r.sc) - SeqMin(r.sc))) ELSE TRUE>> >>
TopThree(r) == <<"C18.top3", Perm(r) /\ Len(r.top) = 3 => r.top = SubSeq(r.order, 1, 3) /\ r.tops = SubSeq(r.sc, 1, 3)>>
HeadLead(r) == <<"C18.confidence", Perm(r) => LeadOk(r.c, r.sc[1], r.sc[2])>>

\* --- plain detection
TableFits(sc, L, major, ref) == \A k \in (IF major THEN 0..11 ELSE 12..23) : Rel(sc[k], Lifted(L, k, ref), 4)
JudgeKey(e, R) == Bind(LAMBDA L : Bind(LAMBDA sc : Failed(<<
    <<"C18.majors", \E ref \in Heads(R, TRUE) : TableFits(sc, L, TRUE, ref)>>,
    <<"C18.minors", \E ref \in Heads(R, FALSE) : TableFits(sc, L, FALSE, ref)>>,
    <<"C18.best", e.r.k \in Winners(R, e.set)>> >>), ByKey(e.r)), Leveled(R))
KeyBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE IF ~Perm(e.r) THEN {"C18.permutation"}
  ELSE Failed(Shape(e.r, TRUE) \o <<TopThree(e.r), HeadLead(e.r), <<"C18.repeat", e.same>> >>)
       \cup Bind(LAMBDA R : JudgeKey(e, R), Match(TLCEval(Hist(e.fr, e.w)), e.set, e.tm))

\* --- the same music, transformed
RelBad(e) ==
  IF e.a.st # "ok" \/ e.b.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE Bind(LAMBDA R :
    LET clear == Cardinality(Heads(R, TRUE)) = 1 /\ Cardinality(Heads(R, FALSE)) = 1
        one == Cardinality(Winners(R, e.set)) = 1
        flat == Tops(R)[1] = 0 /\ Tops(R)[2] = 0
        scaled == e.kind = "scale" /\ (Tops(R)[1] <= 0 \/ Tops(R)[2] <= 0)
    IN Failed(<<
      <<"C18.same_key", (~flat /\ one) => e.b.k = Rot(e.a.k, e.by)>>,
      <<"C18.same_table", (clear /\ ~scaled) => \A k \in Keys : Rel(e.b.t[Rot(k, e.by) + 1], e.a.t[k + 1], 4)>>,
      <<"C18.same_conf", (clear /\ one) => Near(e.a.c, e.b.c, 200)>> >>),
    Match(TLCEval(Hist(e.fr, e.w)), e.set, e.tm))

\* --- the profiles themselves
OwnBad(e) ==
  IF e.st # "ok" THEN {"C18.failed"} ELSE
  LET n == Norm(Profile(e.set, IsMajor(e.key)))
      want == [p \in PC |-> DivM(Entry(e.set, e.key, p) * 22361, n * 1000)]
  IN Failed(<<
    <<"C18.own_profile", e.r.k = e.key>>,
    <<"C18.profile_rows", Len(e.row) = 12 /\ \A p \in PC : Near(e.row[p + 1], want[p], 60)>>,
    <<"C18.profile_access", e.row2 = e.row>> >>)

\* --- mode heuristic
HeurBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE IF ~Perm(e.r) \/ ~Perm(e.base) THEN {"C18.permutation"}
  ELSE Bind(LAMBDA H : Bind(LAMBDA sc : Bind(LAMBDA bs :
    LET ws == WSum(e.fr, e.w)
        off == (~e.hb /\ e.flip = 0) \/ ws = 0
        add(k) == IF e.hb THEN Bonus(H, k, ws, e.lt) ELSE 0
        others == Max({ sc[k] : k \in Keys \ {e.r.k} })
        flat == Sum([p \in 1..12 |-> H[p - 1]]) = 0
    IN IF off THEN Failed(<< <<"C18.heur_off", e.r = e.base>> >>)
       ELSE Failed(Shape(e.r, FALSE) \o <<
         <<"C18.heur_table", \A k \in Keys : Rel(sc[k], bs[k] + add(k), 5 + Abs(add(k)) \div 40000)>>,
         <<"C18.heur_choice", flat \/ e.r.k \in Flips(H, sc, e.r.order[1], e.m, e.flip)>>,
         <<"C18.confidence", LeadOk(e.r.c, sc[e.r.k], Max2(0, others))>>,
         <<"C18.heur_top", SubSeq(e.r.top, 1, 2) = SubSeq(e.r.order, 1, 2)
                            /\ (e.r.top[3] = e.r.order[3] \/ (e.r.top[3] = e.r.k /\ \A i \in 1..3 : e.r.order[i] # e.r.k))>> >>),
    ByKey(e.base)), ByKey(e.r)), Hist(e.fr, e.w))

\* --- several time scales
SMul(a, b) == IF a < 0 THEN -MulM(-a, b) ELSE MulM(a, b)
SDiv(a, b) == IF a < 0 THEN -DivM(-a, b) ELSE DivM(a, b)
ScaleW(e, i) == IF i \in DOMAIN e.sw THEN e.sw[i] ELSE 2                \* in halves
\* <<scale index, row>> pairs that count
Used(e) == { <<i, j>> \in (DOMAIN e.lens) \X (DOMAIN e.rows) :
               /\ ScaleW(e, i) > 0
               /\ e.rows[j].len = e.lens[i]
               /\ e.rows[j].at \in Starts(e.n, e.lens[i], Max2(e.hop, 1))
               /\ e.rows[j].cl >= e.minc }
Pieces(e) == Sum([i \in DOMAIN e.lens |-> IF ScaleW(e, i) > 0 THEN Cardinality(Starts(e.n, e.lens[i], Max2(e.hop, 1))) ELSE 0])
Edge(e) == \E j \in DOMAIN e.rows : Near(e.rows[j].cl, e.minc, 30) /\ ~(e.minc = 0)
Small(e) == \A j \in DOMAIN e.rows : \A k \in 1..24 : Abs(e.rows[j].t[k]) < 6000000
W(e, u) == FoldSet(LAMBDA x, a : a + (e.rows[x[2]].cl * ScaleW(e, x[1])) \div 2, 0, u)
MultiBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE IF ~Perm(e.r) THEN {"C18.permutation"}
  ELSE Bind(LAMBDA u : Bind(LAMBDA sc :
    LET w == W(e, u) IN
    IF Edge(e) THEN {}
    ELSE IF w = 0 THEN Failed(<< <<"C18.multi_fallback", e.r = e.g \/ (u # {} /\ Abs(w) < 20)>> >>)
    ELSE Failed(Shape(e.r, TRUE) \o <<TopThree(e.r), HeadLead(e.r),
      <<"C18.multi_table", (w >= 1000 /\ Small(e)) =>
           \A k \in Keys : LET t == FoldSet(LAMBDA x, a : a + SMul(e.rows[x[2]].t[k + 1], (e.rows[x[2]].cl * ScaleW(e, x[1])) \div 2), 0, u)
                           IN Abs(t) < 190000000 => Rel(sc[k], SDiv(t, w), 12 + Cardinality(u) * 2 + 10000000 \div w)>> >>),
    ByKey(e.r)), Used(e))

\* --- vote of windows
SegLen(e) == Max2(Min2(e.len, e.n), 120)
RowAt(e, s) == e.rows[CHOOSE j \in DOMAIN e.rows : e.rows[j].at = s /\ e.rows[j].len = SegLen(e)]
MedianBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE IF ~Perm(e.r) THEN {"C18.permutation"}
  ELSE Bind(LAMBDA st : IF Cardinality(st) < Max2(e.mins, 1) THEN Failed(<< <<"C18.median_fallback", e.r = e.g>> >>)
    ELSE Bind(LAMBDA rows : Bind(LAMBDA sc :
      LET ks == [i \in DOMAIN rows |-> rows[i].k]
          total(k) == FoldSet(LAMBDA i, a : a + rows[i].c, 0, { i \in DOMAIN rows : ks[i] = k })
          best == Commonest(ks)
          may == { k \in best : \A j \in best : total(j) <= total(k) + 30 }
          w == Sum([i \in DOMAIN rows |-> rows[i].c])
          others == Max({ sc[k] : k \in Keys \ {e.r.k} })
      IN Failed(<<
        <<"C18.ranked", Descending(e.r.sc)>>,
        <<"C03.key_conf", Unit(e.r.c) /\ Unit(e.r.cl)>>,
        <<"C18.median_key", e.r.k \in may>>,
        <<"C18.median_conf", LeadOk(e.r.c, sc[e.r.k], others)>>,
        TopThree(e.r),
        \* detections without any confidence carry no weight
        <<"C18.median_unsure", (\A i \in DOMAIN rows : rows[i].z) => (\A k \in Keys : sc[k] = 0) /\ e.r.c = 0>>,
        <<"C18.median_table", w >= 20000 => \A k \in Keys :
             LET t == Sum([i \in DOMAIN rows |-> SMul(rows[i].t[k + 1], rows[i].c)])
             IN (Abs(t) < 190000000 /\ \A i \in DOMAIN rows : Abs(rows[i].t[k + 1]) < 60000000) => Rel(sc[k], SDiv(t, w), 12 + Abs(t) \div (w \div 50))>> >>),
      ByKey(e.r)), SetToSeq({ RowAt(e, s) : s \in st })),
    Starts(e.n, SegLen(e), Max2(e.hop, 1)))

\* --- both template sets
EnsBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.failed"}
  ELSE IF ~Perm(e.r) THEN {"C18.permutation"}
  ELSE LET a == IF e.a + e.b = 0 THEN 1 ELSE e.a  b == IF e.a + e.b = 0 THEN 1 ELSE e.b  sc == TLCEval(ByKey(e.r)) IN
       Failed(Shape(e.r, TRUE) \o <<TopThree(e.r), HeadLead(e.r),
         <<"C18.ens_table", \A k \in Keys : Near(sc[k], (e.x[k + 1] * a + e.y[k + 1] * b) \div (a + b), 4)>> >>)

ClarityBad(e) ==
  IF e.st # "ok" THEN {"C01.key_failed", "C18.clarity"}
  ELSE Failed(<< <<"C03.clarity_unit", Unit(e.cl)>>,
                 <<"C18.clarity_value", IF Len(e.s) < 2 THEN e.cl = 0
                    ELSE LET n == Len(e.s)  hi == SeqMax(e.s)  lo == SeqMin(e.s)  d == n * e.s[1] - Sum(e.s) IN
                         IF hi = lo \/ d <= 0 THEN e.cl = 0 ELSE Near(e.cl, Min2(M, DivM(d, n * (hi - lo))), 5)>> >>)
BadBad(e) == Failed(<< <<"C02.key_rejects", \A i \in DOMAIN e.sts : e.sts[i] = "InvalidInput">>, <<"C18.rejects", \A i \in DOMAIN e.sts : e.sts[i] = "InvalidInput">> >>)

\* --- key changes
CSeg(e) == (e.dur * e.fps) \div 1000
CHop(e) == Max2(0, CSeg(e) - (e.ov * e.fps) \div 1000)
CRow(e, s) == e.rows[CHOOSE j \in DOMAIN e.rows : e.rows[j].at = s /\ e.rows[j].len = CSeg(e)]
ChangesBad(e) ==
  IF e.n = 0 \/ e.zero \/ CSeg(e) = 0 \/ CHop(e) = 0 \/ CSeg(e) > e.n
  THEN Failed(<< <<"C19.rejects", e.st = "InvalidInput">>, <<"C02.changes_rejects", e.st = "InvalidInput">> >>)
  ELSE IF e.st # "ok" THEN {"C01.changes_failed", "C19.failed"}
  ELSE LET starts == SetToSortSeq(Starts(e.n, CSeg(e), CHop(e)), LAMBDA a, b : a < b)
           want == [i \in DOMAIN starts |-> [t |-> (starts[i] \div e.fps) * 1000000 + ((starts[i] % e.fps) * 1000000) \div e.fps, k |-> CRow(e, starts[i]).k, c |-> CRow(e, starts[i]).c]]
           meanc(i) == (want[i - 1].c + want[i].c) \div 2
           sure == { i \in 2..Len(want) : want[i - 1].k # want[i].k /\ meanc(i) > 200002 }
           may == { i \in 2..Len(want) : want[i - 1].k # want[i].k /\ meanc(i) >= 199998 }
           ks == [i \in DOMAIN want |-> want[i].k]
           mine == { i \in DOMAIN ks : ks[i] = e.p }
           is(ch, i) == Near(ch.t, want[i].t, 3 + want[i].t \div 1000000) /\ ch.from = want[i - 1].k /\ ch.to = want[i].k /\ Near(ch.c, meanc(i), 3)
       IN Failed(<<
         <<"C19.count", Len(e.segs) = Len(want)>>,
         <<"C19.segments", \A i \in DOMAIN e.segs : i \in DOMAIN want => Near(e.segs[i].t, want[i].t, 3 + want[i].t \div 1000000) /\ e.segs[i].k = want[i].k /\ Near(e.segs[i].c, want[i].c, 2)>>,
         <<"C19.reported", \A i \in sure : \E j \in DOMAIN e.ch : is(e.ch[j], i)>>,
         <<"C19.only_real", \A j \in DOMAIN e.ch : \E i \in may : is(e.ch[j], i)>>,
         <<"C19.in_order", \A j \in 1..(Len(e.ch) - 1) : e.ch[j].t < e.ch[j + 1].t>>,
         <<"C19.primary", e.p \in Commonest(ks)>>,
         <<"C19.primary_conf", mine # {} => Near(e.pc, FoldSet(LAMBDA i, a : a + want[i].c, 0, mine) \div Cardinality(mine), 5)>>,
         <<"C19.repeat", e.same>>,
         <<"C03.change_conf", Unit(e.pc) /\ (\A j \in DOMAIN e.ch : Unit(e.ch[j].c)) /\ \A j \in DOMAIN e.segs : Unit(e.segs[j].c)>> >>)

Bad(e) == IF Crashed(e) THEN {"C01.key_crash", "C18.crash", "C19.crash"}
          ELSE CASE e.ev = "key" -> KeyBad(e)
                 [] e.ev = "rel" -> RelBad(e)
                 [] e.ev = "own" -> OwnBad(e)
                 [] e.ev = "heur" -> HeurBad(e)
                 [] e.ev = "multi" -> MultiBad(e)
                 [] e.ev = "median" -> MedianBad(e)
                 [] e.ev = "ens" -> EnsBad(e)
                 [] e.ev = "clarity" -> ClarityBad(e)
                 [] e.ev = "bad" -> BadBad(e)
                 [] e.ev = "changes" -> ChangesBad(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
