--------------------------- MODULE TraceTempogram ---------------------------
(* Events                                                                       *)
(*  "tg"    one spectrogram: vs (variants: tempograms of its novelty curves),   *)
(*          all (full candidate list [b,s,f,a,sel]), est, plus a limited call   *)
(*          (topn, short, est2) and the plain call (est3); bonus/thr/seedonly   *)
(*          for band fusion; cuts: band edges                                   *)
(*  "ac"    lag tempogram of an integer curve                                   *)
(*  "fft"   frequency tempogram of an integer curve                             *)
(*  "sfft"  the same for a long curve of n values, zero except v[i] at at[i]    *)
(*          (counted from 0), which sum to zero; narrow tempo range             *)
(*  "best"  prominence of the head of a tempogram                               *)
(*  "nov"   novelty curves of a small integer spectrogram                       *)
(*  "blend" combination of three curves                                         *)
EXTENDS Tempogram, Trig, TraceKit
VARIABLE l
ME == INSTANCE Mel
N == INSTANCE Novelty
Bind(F(_), x) == CHOOSE r \in { F(t) : t \in { TLCEval(x) } } : TRUE

\* --- candidates
Scoring(e) == IF e.seedonly THEN <<e.vs[1]>> ELSE e.vs
AcTol(e) == Max2(e.res, 500)
LowsOf(e, b, dom) == WMean(Scoring(e), [i \in DOMAIN Scoring(e) |-> Min(Support(IF dom = 1 THEN Scoring(e)[i].f ELSE Scoring(e)[i].a, b, IF dom = 1 THEN Merge ELSE AcTol(e)))])
HighsOf(e, b, dom) == WMean(Scoring(e), [i \in DOMAIN Scoring(e) |-> Max(Support(IF dom = 1 THEN Scoring(e)[i].f ELSE Scoring(e)[i].a, b, IF dom = 1 THEN Merge ELSE AcTol(e)))])
NormOk(e, c) ==
  IF Len(Scoring(e)) = 1
  THEN Within(c.f, Support(e.vs[1].f, c.b, Merge), 60) /\ Within(c.a, Support(e.vs[1].a, c.b, AcTol(e)), 60)
  ELSE /\ c.f >= LowsOf(e, c.b, 1) - 100 /\ c.f <= HighsOf(e, c.b, 1) + 100
       /\ c.a >= LowsOf(e, c.b, 2) - 100 /\ c.a <= HighsOf(e, c.b, 2) + 100
\* how many of the bands support a tempo (lower and upper count)
Backs(v, b, e, t) == Max(Support(v.f, b, Merge)) >= t \/ Max(Support(v.a, b, AcTol(e))) >= t
Surely(v, b, e, t) == Min(Support(v.f, b, Merge)) >= t \/ Min(Support(v.a, b, AcTol(e))) >= t
BackLo(e, b) == Cardinality({ i \in 2..Len(e.vs) : Surely(e.vs[i], b, e, e.thr + 60) })
BackHi(e, b) == Cardinality({ i \in 2..Len(e.vs) : Backs(e.vs[i], b, e, e.thr - 60) })
Boosted(e, n, s) == IF n >= 2 THEN (s \div 100) * (100 + e.bonus * (n - 1)) ELSE s
ScoreOk(e, c) ==
  LET s == Blend(c.a, c.f) IN
  IF e.bonus = 0 THEN Within(c.s, Priors(c.b, s), 300)
  ELSE \E n \in BackLo(e, c.b)..BackHi(e, c.b) : Within(c.s, Priors(c.b, Boosted(e, n, s)), 600)
RawAll(e) == Nominated(e.vs, e.min - 3, e.max + 3)
JudgeCands(e, raw) ==
  LET B == { e.all[i].b : i \in DOMAIN e.all } IN
  Failed(<<
    <<"C14.nominated", \A b \in B : \E r \in raw : Near(r, b, 3)>>,
    <<"C14.covered", \A r \in raw : (r >= e.min + 4 /\ r <= e.max - 4) => \E b \in B : b <= r + 3 /\ r - b < Merge + 4>>,
    <<"C04.apart", \A i, j \in DOMAIN e.all : i < j => Abs(e.all[i].b - e.all[j].b) >= Merge - 2>>,
    <<"C04.cand_range", \A b \in B : b >= e.min - 1 /\ b <= e.max + 1>>,
    <<"C03.cand_units", \A i \in DOMAIN e.all : LET c == e.all[i] IN c.f >= 0 /\ c.f <= U /\ c.a >= 0 /\ c.a <= U /\ Fin(c.s) /\ c.s >= 0>>,
    <<"C14.support", \A i \in DOMAIN e.all : NormOk(e, e.all[i])>>,
    <<"C14.score", \A i \in DOMAIN e.all : ScoreOk(e, e.all[i])>>,
    <<"C14.ranked", \A i \in 1..(Len(e.all) - 1) : e.all[i].s >= e.all[i + 1].s>>,
    <<"C04.ranked", \A i \in 1..(Len(e.all) - 1) : e.all[i].s >= e.all[i + 1].s>> >>)
JudgeEst(e) ==
  LET ch == Chosen(e.all, e.min, e.max)
      hit == { i \in ch : Near(e.all[i].b, e.est.b, 1) }
      k == IF hit = {} THEN 1 ELSE Min(hit)
  IN Failed(<<
    <<"C14.best", hit # {}>>,
    <<"C04.tg_range", e.est.b >= e.min - 1 /\ e.est.b <= e.max + 1>>,
    <<"C03.tg_conf", Unit(e.est.c)>>,
    <<"C14.lead", hit # {} => \E i \in hit : IF e.all[i].s = 0 THEN e.est.c <= M ELSE Near(MulM(e.est.c, e.all[i].s), Lead(e.all, i), 4 + e.all[i].s \div M)>>,
    <<"C14.agreement", \E d \in {-3, 0, 3} : e.est.n = Agreement(e.vs, e.est.b, d)>>,
    <<"C14.selected", \A i \in DOMAIN e.all : IF Near(Abs(e.all[i].b - e.est.b), Merge, 3) THEN TRUE ELSE e.all[i].sel = (Abs(e.all[i].b - e.est.b) < Merge)>>,
    <<"C14.same", e.est2 = e.est /\ e.est3 = e.est>>,
    <<"C14.prefix", e.short = SubSeq(e.all, 1, Min2(e.topn, Len(e.all)))>>,
    <<"C04.limit", Len(e.short) <= e.topn>> >>)
JudgeTg(e) ==
  IF e.status # "ok" THEN Failed(<< <<"C14.answer", e.none /\ e.status = "ProcessingError">> >>)
  ELSE IF e.none THEN {"C14.none"}
  ELSE Bind(LAMBDA raw : JudgeCands(e, raw), RawAll(e)) \cup JudgeEst(e)
       \cup Failed(<< <<"C14.bands", \A i \in DOMAIN e.cuts : Near(e.cuts[i][1], (e.cuts[i][2] * e.fftsize) \div e.sr, 1)>> >>)

\* --- lag tempogram: strengths in millionths relative to nothing (integer curve)
AcB(e, i) == e.min + (i - 1) * e.res
JudgeAc(e) ==
  LET n == (e.max - e.min) \div e.res + 1
      idx(b) == (b - e.min + e.res \div 2) \div e.res + 1
      ok(o) == \E g \in Lags(e.sr, e.hop, o[1], 2) : Near(o[2], LagMean(e.x, g), 6 + LagMean(e.x, g) \div 200000)
  IN Failed(<<
    <<"C14.ac_grid", Len(e.out) = n /\ \A i \in DOMAIN e.out : idx(e.out[i][1]) \in 1..n /\ Near(e.out[i][1], AcB(e, idx(e.out[i][1])), 3)>>,
    <<"C14.ac_once", Cardinality({ idx(e.out[i][1]) : i \in DOMAIN e.out }) = Len(e.out)>>,
    <<"C14.ac_strength", \A i \in DOMAIN e.out : ok(e.out[i])>>,
    <<"C14.ac_ranked", \A i \in 1..(Len(e.out) - 1) : e.out[i][2] >= e.out[i + 1][2]>> >>)

\* --- frequency tempogram: curve of n integers, transform length q (power of two)
Pow2(n) == Min({ p \in {1, 2, 4, 8, 16, 32, 64} : p >= n })
BinB(e, k, q) == LET a == 60 * e.sr * k  b == e.hop * q IN 1000 * (a \div b) + (1000 * (a % b)) \div b
PowTable(e, q) ==
  LET n == Len(e.x)
      mean == (Sum(e.x) * 1000) \div n
      y == [i \in 1..n |-> LET w == IF n > 1 THEN (M - CosTurn(i - 1, n - 1)) \div 2 ELSE M IN ((e.x[i] * 1000 - mean) * (w \div 100)) \div 10000]   \* thousandths
  IN Bind(LAMBDA yy : Bind(LAMBDA cs :
       [k \in 0..(q \div 2) |->
          LET re == FoldLeft(LAMBDA acc, i : acc + yy[i] * (cs[(k * (i - 1)) % q] \div 1000), 0, [i \in 1..n |-> i]) \div 1000
              im == FoldLeft(LAMBDA acc, i : acc + yy[i] * (cs[(k * (i - 1) + (3 * q) \div 4) % q] \div 1000), 0, [i \in 1..n |-> i]) \div 1000
          IN  (re \div 10) * (re \div 10) + (im \div 10) * (im \div 10)], [t \in 0..(q - 1) |-> CosTurn(t, q)]), y)      \* 10^-4
JudgeFft(e) ==
  LET q == Pow2(Len(e.x))
      must == { k \in 0..(q \div 2) : BinB(e, k, q) >= e.min + 2 /\ BinB(e, k, q) <= e.max - 2 }
      may == { k \in 0..(q \div 2) : BinB(e, k, q) >= e.min - 2 /\ BinB(e, k, q) <= e.max + 2 }
  IN Bind(LAMBDA P : Failed(<<
       <<"C14.fft_all", \A k \in must : Cardinality({ i \in DOMAIN e.out : Near(e.out[i][1], BinB(e, k, q), 2) }) = 1>>,
       <<"C14.fft_bins", \A i \in DOMAIN e.out : \E k \in may : Near(e.out[i][1], BinB(e, k, q), 2)>>,
       <<"C14.fft_ranked", \A i \in 1..(Len(e.out) - 1) : e.out[i][2] >= e.out[i + 1][2]>>,
       <<"C14.fft_power", \A i \in DOMAIN e.out : \A k \in may : Near(e.out[i][1], BinB(e, k, q), 2) =>
             Near(e.out[i][2], P[k], 1500 + P[k] \div 50)>> >>), PowTable(e, q))

\* --- the same for a long, sparse curve with mean zero
SPow(e, q, k) ==
  LET y == [i \in DOMAIN e.at |-> (e.v[i] * ((M - CosTurn(e.at[i], e.n - 1)) \div 200)) \div 10]      \* thousandths
      at(s) == FoldLeft(LAMBDA acc, i : acc + y[i] * (CosTurn(((k * e.at[i]) % q) + s, q) \div 1000), 0, [i \in DOMAIN y |-> i]) \div 1000
  IN  Bind(LAMBDA z : (z[1] \div 10) * (z[1] \div 10) + (z[2] \div 10) * (z[2] \div 10), <<at(0), at((3 * q) \div 4)>>)
JudgeSfft(e) ==
  LET q == CHOOSE p \in {512, 1024, 2048, 4096, 8192, 16384, 32768} : p >= e.n /\ p < 2 * e.n
      near == Max2(0, ((e.min \div 1000) * e.hop * q) \div (60 * e.sr) - 2)..(((e.max \div 1000 + 1) * e.hop * q) \div (60 * e.sr) + 2)
      bins(d) == { k \in near : k <= q \div 2 /\ BinB(e, k, q) >= e.min - d /\ BinB(e, k, q) <= e.max + d }
      ok(o) == \E k \in bins(2) : Near(o[1], BinB(e, k, q), 2) /\ Bind(LAMBDA p : Near(o[2], p, 1500 + p \div 50), SPow(e, q, k))
  IN Failed(<<
       <<"C14.fft_all", \A k \in bins(-2) : Cardinality({ i \in DOMAIN e.out : Near(e.out[i][1], BinB(e, k, q), 2) }) = 1>>,
       <<"C14.fft_ranked", \A i \in 1..(Len(e.out) - 1) : e.out[i][2] >= e.out[i + 1][2]>>,
       <<"C14.fft_power", \A i \in DOMAIN e.out : ok(e.out[i])>> >>)

JudgeBest(e) ==
  IF e.tg = <<>> THEN Failed(<< <<"C14.best_none", e.out = <<>>>> >>)
  ELSE IF e.out = <<>> THEN {"C14.best_lost"}
  ELSE LET want == IF Len(e.tg) = 1 THEN 500000 ELSE IF e.tg[1][2] = 0 THEN 0 ELSE DivM(Max2(0, e.tg[1][2] - e.tg[2][2]), e.tg[1][2]) IN
       Failed(<< <<"C14.best_head", e.out[1] = e.tg[1][1]>>, <<"C14.best_conf", Near(e.out[2], want, 3)>> >>)

\* --- novelty
SqOk(out, sq, u) == IF sq = <<>> \/ SeqMax(sq) = 0 THEN \A i \in DOMAIN out : out[i] <= 2
                 ELSE \A i \in DOMAIN out : Near(MulM(out[i], out[i]), DivM(sq[i], SeqMax(sq)), 30 + (u * M) \div SeqMax(sq))
RelOk(out, s) == \A i \in DOMAIN out : Near(out[i], N!Relative(s)[i], 3)
LenOk(e, out) == Len(out) = Max2(0, Len(e.f) - 1)
JudgeNov(e) ==
  LET nb == Len(e.f[1]) lo == e.lo + 1 hi == Min2(e.hi, nb)
      wide == hi - lo >= 1
      lf == [i \in DOMAIN e.f |-> [k \in 1..nb |-> e.f[i][k]]]
  IN Failed(<<
    <<"C14.nov_len", LenOk(e, e.energy) /\ LenOk(e, e.hfc) /\ LenOk(e, e.flux) /\ LenOk(e, e.super) /\ LenOk(e, e.mel)>>,
    <<"C14.nov_energy", RelOk(e.energy, N!EnergyRise(e.f, 1, nb))>>,
    <<"C14.nov_hfc", RelOk(e.hfc, N!HfcRise(e.f, 1, nb))>>,
    <<"C14.nov_flux", SqOk(e.flux, N!FluxSq(e.f), 12)>>,
    <<"C14.nov_super", SqOk(e.super, N!SuperSq(e.f, e.k, 1, nb), 0)>>,
    <<"C14.nov_band_len", IF wide THEN LenOk(e, e.benergy) /\ LenOk(e, e.bhfc) /\ LenOk(e, e.bsuper) ELSE e.benergy = <<>> /\ e.bhfc = <<>> /\ e.bsuper = <<>>>>,
    <<"C14.nov_band", wide => RelOk(e.benergy, N!EnergyRise(e.f, lo, hi)) /\ RelOk(e.bhfc, N!HfcRise(e.f, lo, hi)) /\ SqOk(e.bsuper, N!SuperSq(e.f, e.k, lo, hi), 0)>>,
    <<"C03.nov", \A s \in {e.energy, e.hfc, e.flux, e.super, e.mel, e.benergy, e.bhfc, e.bsuper} : \A i \in DOMAIN s : Unit(s[i])>>,
    \* nothing rises from a frame to the next: no novelty there, in any representation
    <<"C14.nov_still", \A i \in 1..(Len(e.f) - 1) : (\A k \in 1..nb : e.f[i + 1][k] <= e.f[i][k]) => e.energy[i] = 0 /\ e.hfc[i] = 0 /\ e.super[i] = 0 /\ e.mel[i] = 0>> >>)

\* --- mel bands: the middle of a triangle may count once or twice
JudgeMel(e) ==
  LET n == ME!Bands(e.n) IN
  IF Len(e.f) < 2 THEN Failed(<< <<"C14.mel_len", e.out = <<>>>> >>)
  ELSE IF ~LenOk(e, e.out) THEN {"C14.mel_len"}
  ELSE Bind(LAMBDA B : Bind(LAMBDA C :
         IF \E i \in DOMAIN C : ME!Doubtful(C[i], B) THEN {}
         ELSE Bind(LAMBDA P :
           LET fits(mid) == Bind(LAMBDA L : ME!Faint(L, Max2(1, e.k)) \/ SqOk(e.out, ME!RiseSq(L, Max2(1, e.k)), 12 * n), [i \in DOMAIN e.f |-> TLCEval(ME!Levels(e.f[i], P, n, mid))]) IN
           Failed(<< <<"C14.mel", fits(2) \/ fits(1)>> >>),
           ME!Increasing([i \in DOMAIN C |-> ME!RawBin(C[i], B)], Len(e.f[1]))),
       ME!Corners(n, Len(e.f[1]), e.sr, e.lo, e.hi)), ME!Borders(Len(e.f[1]), e.sr))
  \cup Failed(<< <<"C03.mel", \A i \in DOMAIN e.out : Unit(e.out[i])>> >>)

JudgeBlend(e) ==
  LET b0 == N!Blend(e.s, e.e, e.h, e.ws, e.we, e.wh)
      m0 == IF b0 = <<>> THEN 0 ELSE SeqMax(b0)
      step(b) == N!Smooth(N!LocalMean(b, e.lm), e.sm)
  IN IF b0 = <<>> THEN Failed(<< <<"C14.blend_empty", e.out = <<>>>> >>)
     ELSE IF m0 < 1000 THEN Failed(<< <<"C14.blend_len", Len(e.out) = Len(b0)>> >>)
     ELSE Bind(LAMBDA c :
       LET m1 == SeqMax(c) IN
       Failed(<<
         <<"C14.blend_len", Len(e.out) = Len(b0)>>,
         <<"C03.blend", \A i \in DOMAIN e.out : Unit(e.out[i])>>,
         <<"C14.blend", m1 > 2000 => \A i \in DOMAIN e.out : Near(e.out[i], DivM(c[i], m1), 10 + (12 * M) \div m1)>> >>), step(N!Relative(b0)))

Judge(e) ==
  IF Crashed(e) THEN {"C14.total", "C01.tempogram"}
  ELSE IF e.status = "panic" THEN {"C14.total", "C01.tempogram"}
  ELSE IF e.ev = "bad" THEN Failed(<< <<"C02.tempogram_reject", e.status = "InvalidInput">> >>)
  ELSE CASE e.ev = "tg" -> JudgeTg(e)
         [] e.ev = "ac" -> IF e.status = "ok" THEN JudgeAc(e) ELSE {"C14.ac_ok"}
         [] e.ev = "fft" -> IF e.status = "ok" THEN JudgeFft(e) ELSE {"C14.fft_ok"}
         [] e.ev = "sfft" -> IF e.status = "ok" THEN JudgeSfft(e) ELSE {"C14.fft_ok"}
         [] e.ev = "best" -> JudgeBest(e)
         [] e.ev = "nov" -> IF e.status = "ok" THEN JudgeNov(e) ELSE {"C14.nov_ok"}
         [] e.ev = "mel" -> IF e.status = "ok" THEN JudgeMel(e) ELSE {"C14.mel_ok"}
         [] e.ev = "blend" -> JudgeBlend(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
