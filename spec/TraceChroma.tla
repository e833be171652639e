----------------------------- MODULE TraceChroma -----------------------------
(* Events                                                                      *)
(*  "profile" profile and energy of one spectrum m                             *)
(*  "hpcp"    peak-and-harmonics profile, optionally blended with the bass     *)
(*  "log"     spectrum on a semitone axis       "fold"  its pitch classes      *)
(*  "beat"    profiles per beat interval                                       *)
(*  "smooth"  median / mean over time           "tmask", "hmask" steady part   *)
(*  "scale"   sharpening and normalising                                       *)
(*  "stft"    spectrogram of small integer signals                             *)
(*  "count"   shapes for ordinary sizes                                        *)
(*  "tone"    pure tones                        "tune"  tuning estimate        *)
(*  "bad"     malformed input                                                  *)
EXTENDS Chroma, TraceKit
VARIABLE l

Vec(c) == Len(c) = 12 /\ \A i \in 1..12 : c[i] # NaN /\ c[i] >= 0
Length2(c) == Sum([i \in DOMAIN c |-> c[i] * c[i]])
UnitOrZero(c) == Vec(c) => (\A i \in 1..12 : c[i] = 0) \/ Near(Length2(c), 100000000, 60000)
Fits(c, P, tol) == Bind(LAMBDA u : \A k \in PC : Near(c[k + 1], u[k], tol), UnitLen(P))
Energy(m) == Sum([i \in DOMAIN m |-> m[i] * m[i]])

ProfileBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF Len(e.c) # 1 \/ ~Vec(e.c[1]) THEN {"C20.shape"}
  ELSE Failed(<< <<"C20.unit", UnitOrZero(e.c[1])>>, <<"C20.energy", e.en = <<Energy(e.m)>> >>, <<"C20.same_entry", e.same>> >>)
       \cup Bind(LAMBDA ps : IF Doubt(ps) THEN {} ELSE Failed(<< <<"C20.profile", Fits(e.c[1], Profile(ps, e.soft, e.sg, 1), 25)>> >>),
                 Parts(e.m, e.res, e.nyq, e.tun))

\* --- peaks and harmonics
HiEdge(e, hi) == Min2(hi, e.nyq)
PartsOf(e, L, lo, hi, k) ==
  IF hi <= lo THEN {} ELSE
  Bind(LAMBDA P : Harmonics(e.m, Strongest(L, P, k), e.res, lo, hi, e.tun, e.h, e.dec, e.comp), PeakBins(L, e.res, lo, hi))
TornAt(e, L, lo, hi, k) == hi > lo /\ Bind(LAMBDA P : CutTorn(L, P, k) \/ NearTorn(L, P, k), PeakBins(L, e.res, lo, hi))
HpcpBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF Len(e.c) # 1 \/ ~Vec(e.c[1]) THEN {"C20.shape"}
  ELSE Failed(<< <<"C20.unit", UnitOrZero(e.c[1])>>, <<"C20.energy", e.en = <<Energy(e.m)>> >> >>)
    \cup Bind(LAMBDA L :
      LET hi == HiEdge(e, 50000000)
          blo == Max2(e.blo, 200000)  bhi == HiEdge(e, e.bhi)
          bk == Clamp(e.k, 1, 12)
      IN IF PlateauTorn(L) \/ TornAt(e, L, Low, hi, e.k) \/ (e.bass /\ TornAt(e, L, blo, bhi, bk)) THEN {}
         ELSE Bind(LAMBDA full : Bind(LAMBDA low :
           IF Doubt(full) \/ Doubt(low) THEN {}
           ELSE IF ~e.bass THEN Failed(<< <<"C20.hpcp", Fits(e.c[1], Profile(full, TRUE, e.sg, 10), 30)>> >>)
           ELSE Bind(LAMBDA u : Bind(LAMBDA v :
                  Failed(<< <<"C20.blend", Fits(e.c[1], [k \in PC |-> (100 - e.bw) * u[k] + e.bw * v[k]], 40)>> >>),
                UnitLen(Profile(low, TRUE, e.sg, 10))), UnitLen(Profile(full, TRUE, e.sg, 10))),
           IF e.bass THEN PartsOf(e, L, blo, bhi, bk) ELSE {}), PartsOf(e, L, Low, hi, e.k)),
      Level(e.m, e.white, e.wb))

\* --- semitone axis
LogBad(e) ==
  LET lo == Max2(e.lo, 200000)  hi == Min2(e.hi, e.nyq - 10000)
      s0 == Pos(lo) \div M  s1 == Ceil(Pos(hi), M)
      n == s1 - s0 + 1
      on == { i \in 2..Len(e.m) : e.m[i] > 0 /\ (i - 1) * e.res >= lo /\ (i - 1) * e.res < hi }
      give(i, b) == LET p == Pos((i - 1) * e.res) - s0 * M - (b - 1) * M IN IF Abs(p) >= M THEN 0 ELSE M - Abs(p)
  IN IF n <= 0 THEN Failed(<< <<"C02.log_range", e.st = "InvalidInput">>, <<"C20.log_range", e.st = "InvalidInput">> >>)
     ELSE IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
     ELSE Failed(<< <<"C20.log_size", Len(e.row) = n>>,
                    <<"C20.log_spread", Len(e.row) = n => \A b \in 1..n :
                        Near(e.row[b], FoldSet(LAMBDA i, a : a + (e.m[i] * (give(i, b) \div 100)) \div 10, 0, on), 2 + FoldSet(LAMBDA i, a : a + e.m[i], 0, on) \div 3)>> >>)
FoldBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF Len(e.c) # 1 \/ ~Vec(e.c[1]) THEN {"C20.shape"}
  ELSE Failed(<< <<"C20.unit", UnitOrZero(e.c[1])>>,
                 <<"C20.fold", Fits(e.c[1], [k \in PC |-> FoldSet(LAMBDA i, a : a + e.m[i], 0, { i \in DOMAIN e.m : e.m[i] > 0 /\ (e.off + i - 1) % 12 = k })], 5)>> >>)

\* --- beat intervals: frame i starts at 2*(i-1) sixteenths of a second
BeatBad(e) ==
  IF e.t = <<>> THEN Failed(<< <<"C02.beat_reject", e.st = "InvalidInput">> >>)
  ELSE IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE Failed(<<
    <<"C20.beat_count", Len(e.c) = Len(e.t) - 1 /\ Len(e.e) = Len(e.c)>>,
    <<"C20.beat_mean", Len(e.c) = Len(e.t) - 1 => \A j \in DOMAIN e.c :
        LET fs == { i \in 1..e.n : 2 * (i - 1) >= e.t[j] /\ 2 * (i - 1) < e.t[j + 1] } IN
        IF ~Vec(e.c[j]) THEN FALSE ELSE Fits(e.c[j], [k \in PC |-> FoldSet(LAMBDA i, a : a + e.each[i][k + 1], 0, fs)], 12)>>,
    <<"C20.beat_energy", Len(e.e) = Len(e.t) - 1 => \A j \in DOMAIN e.e :
        e.e[j] = FoldSet(LAMBDA i, a : a + e.en[i], 0, { i \in 1..e.n : 2 * (i - 1) >= e.t[j] /\ 2 * (i - 1) < e.t[j + 1] })>> >>)

\* --- smoothing and masking over time (y in ten-thousandths)
Same(x, y) == Len(y) = Len(x) /\ \A t \in DOMAIN x : Len(y[t]) = Len(x[t])
\* window of a width w: odd widths are centred; an even mean window reaches one further back
Wide(kind, w, n, t) ==
  IF kind = "time" THEN Around(n, t, w)
  ELSE IF w <= 1 THEN {t}
  ELSE IF kind = "median" THEN Around(n, t, w \div 2)
  ELSE { u \in 1..n : u >= t - w \div 2 /\ u <= t - w \div 2 + w - 1 }
SmoothBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF ~Same(e.x, e.y) THEN {"C20.shape"}
  ELSE LET n == Len(e.x)
           want(t, b) == Bind(LAMBDA s : IF e.kind = "median" THEN UpperMedian(s) * 10000 ELSE (Sum(s) * 10000) \div Len(s),
                              Pick(LAMBDA u : e.x[u][b], Wide(e.kind, e.w, n, t)))
       IN Failed(<< <<"C20.smooth", \A t \in 1..n : \A b \in DOMAIN e.x[t] : Near(e.y[t][b], want(t, b), 2)>> >>)
TmaskBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF ~Same(e.x, e.y) THEN {"C20.shape"}
  ELSE LET n == Len(e.x)
           \* both in units of 1/k where k is the number of frames in the window
           want(t, b) == Bind(LAMBDA s : LET k == Len(s)  h == Sum(s)  r == Max2(0, k * e.x[t][b] - h)
                                         IN MulM(e.x[t][b] * 10000, Mask(h, r, e.p)), Pick(LAMBDA u : e.x[u][b], Around(n, t, e.g)))
       IN Failed(<< <<"C20.steady", \A t \in 1..n : \A b \in DOMAIN e.x[t] : Near(e.y[t][b], want(t, b), 4)>> >>)
HmaskBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF ~Same(e.x, e.y) THEN {"C20.shape"}
  ELSE LET n == Len(e.x)  nb == Len(e.x[1])  st == Max2(1, e.step)
           lo == Max2(e.lo, 20)  hi == Max2(e.hi, lo + 1)
           b0 == Min2(lo \div 100, nb)  b1 == Min2(Ceil(hi, 100), nb)
           nd == Ceil(n, st)
           src(k) == st * (k - 1) + 1
           H(k, b) == UpperMedian(Pick(LAMBDA u : e.x[src(u)][b], Around(nd, k, e.tm)))
           P(k, b) == UpperMedian(Pick(LAMBDA u : e.x[src(k)][u], Max2(b0 + 1, b - e.fm)..Min2(b1, b + e.fm)))
           want(t, b) == IF b1 <= b0 THEN e.x[t][b] * 10000
                         ELSE IF b <= b0 \/ b > b1 THEN 0
                         ELSE LET k == (t - 1) \div st + 1 IN MulM(e.x[t][b] * 10000, Mask(H(k, b), P(k, b), e.p))
       IN Failed(<< <<"C20.harmonic", \A t \in 1..n : \A b \in 1..nb : Near(e.y[t][b], want(t, b), 4)>> >>)

\* --- sharpening and normalising
Scaled(x, y, p) ==
  IF Len(x) = 0 THEN y = <<>>
  ELSE Bind(LAMBDA v : LET n2 == Sum([i \in DOMAIN v |-> v[i] * v[i]]) IN
       IF n2 = 0 THEN \A i \in DOMAIN x : Near(y[i] * y[i] * Len(x), 100000000, 60000)
       ELSE LET k == IF n2 < 2000 THEN 1000 ELSE IF n2 < 200000 THEN 100 ELSE 10
                n == Root(n2 * k * k)
            IN \A i \in DOMAIN x : Near(y[i], (v[i] * 10 * k * 1000) \div n, 12),
       [i \in DOMAIN x |-> Pow(x[i], p)])
ScaleBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE IF Len(e.a) # Len(e.x) \/ Len(e.b) # Len(e.x) THEN {"C20.shape"}
  ELSE Failed(<< <<"C20.sharpen", Scaled(e.x, e.a, e.p)>>, <<"C20.normalize", Scaled(e.x, e.b, 1)>> >>)

\* --- spectrogram: Hann window and discrete Fourier transform
CosM(d) == LET q == d % M  h == Min2(q, M - q) IN                            \* cos of d millionths of a turn
           LET x == MulM(6283185, h)  y == IF h <= 250000 THEN x ELSE 3141593 - x
               x2 == MulM(y, y) x4 == MulM(x2, x2) x6 == MulM(x4, x2) x8 == MulM(x4, x4)
               c == M - x2 \div 2 + x4 \div 24 - x6 \div 720 + x8 \div 40320 - MulM(x8, x2) \div 3628800
           IN IF h <= 250000 THEN c ELSE -c
SinM(d) == CosM(d - 250000)
Hann(n) == [i \in 1..n |-> IF n = 1 THEN 0 ELSE (M - CosM(((i - 1) * M) \div (n - 1))) \div 2]
Frames(len, n, hop) == IF len < n THEN 0 ELSE (len - n) \div hop + 1
SDiv3(a) == IF a < 0 THEN -((-a) \div 1000) ELSE a \div 1000
StftBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE LET F == Frames(Len(e.x), e.n, e.hop) IN
    IF Len(e.y) # F \/ \E t \in DOMAIN e.y : Len(e.y[t]) # e.n \div 2 + 1 THEN {"C20.frames"}
    ELSE Bind(LAMBDA w : Bind(LAMBDA cs : Bind(LAMBDA sn :
       LET re(t, k) == Sum([i \in 1..e.n |-> SDiv3(e.x[(t - 1) * e.hop + i] * w[i]) * (cs[(((i - 1) * (k - 1)) % e.n) + 1] \div 100)]) \div 10000
           im(t, k) == Sum([i \in 1..e.n |-> SDiv3(e.x[(t - 1) * e.hop + i] * w[i]) * (sn[(((i - 1) * (k - 1)) % e.n) + 1] \div 100)]) \div 10000
       IN Failed(<< <<"C20.spectrum", \A t \in DOMAIN e.y : \A k \in DOMAIN e.y[t] :
               Bind(LAMBDA z : Near(e.y[t][k], Root(z[1] * z[1] + z[2] * z[2]), 25), <<re(t, k), im(t, k)>>)>> >>),
       [i \in 1..e.n |-> SinM(((i - 1) * M) \div e.n)]), [i \in 1..e.n |-> CosM(((i - 1) * M) \div e.n)]), Hann(e.n))
CountBad(e) ==
  LET F == Frames(e.len, e.n, e.hop) IN
  Failed(<<
    <<"C20.frames", e.frames = F /\ (F > 0 => e.bins = e.n \div 2 + 1)>>,
    <<"C20.one_per_frame", e.len > 0 => e.chromas = F>>,
    <<"C02.empty_audio", (e.len = 0) = (e.sts[2] = "InvalidInput")>>,
    <<"C01.chroma", e.sts[1] = "ok" /\ (e.len > 0 => e.sts[2] = "ok")>>,
    <<"C20.unit", ~e.neg /\ \A i \in DOMAIN e.norms : e.norms[i] = 0 \/ Near(e.norms[i], 10000, 5)>>,
    <<"C20.same_entry", e.same>> >>)
ToneBad(e) ==
  IF e.st # "ok" THEN {"C20.failed"}
  ELSE Failed(<< <<"C20.tone", e.tops # <<>> /\ \A i \in DOMAIN e.tops : e.tops[i] = e.s % 12>>,
                 <<"C20.tone_peaks", e.htops # <<>> /\ \A i \in DOMAIN e.htops : e.htops[i] = e.s % 12>> >>)

\* --- tuning: the direction in which the sounding partials lie off the semitone raster
Sqrt(m) == CASE m = 0 -> 0 [] m = 1 -> 1 [] m = 4 -> 2 [] m = 9 -> 3 [] m = 25 -> 5
TuneBad(e) ==
  IF e.st # "ok" THEN {"C20.failed", "C01.chroma"}
  ELSE LET lo == Max2(e.lo, 200000)  hi == Min2(Max2(e.hi, lo + 10000), e.nyq)
           band(i) == (i - 1) * e.res >= lo /\ (i - 1) * e.res <= hi
           ts == { t \in DOMAIN e.m : (t - 1) % Max2(1, e.step) = 0 }
           peak(t) == LET B == { e.m[t][i] : i \in { j \in DOMAIN e.m[t] : band(j) } } IN IF B = {} THEN 0 ELSE Max(B)
           on == { <<t, i>> \in ts \X (2..Len(e.m[1])) : e.m[t][i] > 0 /\ band(i) /\ e.m[t][i] * 100 >= peak(t) * e.thr }
       IN Bind(LAMBDA parts :
            LET W == FoldSet(LAMBDA x, a : a + x[2], 0, parts)
                C == FoldSet(LAMBDA x, a : a + x[2] * (CosM(x[1] % M) \div 100), 0, parts)
                S == FoldSet(LAMBDA x, a : a + x[2] * (SinM(x[1] % M) \div 100), 0, parts)
                len2 == (C \div 100) * (C \div 100) + (S \div 100) * (S \div 100)      \* 10^4 per unit weight
                weak == len2 < 16 * W * W   sure == len2 > 36 * W * W
                cross == (S * (CosM(e.d) \div 1000) - C * (SinM(e.d) \div 1000)) \div 1000
                dot == (C * (CosM(e.d) \div 1000) + S * (SinM(e.d) \div 1000)) \div 1000
            IN Failed(<<
                 <<"C20.tuning_range", Fin(e.d) /\ Abs(e.d) <= 500000>>,
                 <<"C20.tuning", IF W = 0 THEN e.d = 0
                                 ELSE IF weak THEN e.d = 0
                                 ELSE IF ~sure THEN TRUE
                                 ELSE Abs(cross) <= 30 * W /\ dot > 0>> >>),
            { <<Pos((x[2] - 1) * e.res), Sqrt(e.m[x[1]][x[2]]), x>> : x \in on })

BadBad(e) == Failed(<< <<"C02.chroma_reject", \A i \in DOMAIN e.sts : e.sts[i] = "InvalidInput">>, <<"C20.reject", \A i \in DOMAIN e.sts : e.sts[i] = "InvalidInput">> >>)

Bad(e) == IF Crashed(e) THEN {"C01.chroma", "C20.crash"}
          ELSE CASE e.ev = "profile" -> ProfileBad(e)
                 [] e.ev = "hpcp" -> HpcpBad(e)
                 [] e.ev = "log" -> LogBad(e)
                 [] e.ev = "fold" -> FoldBad(e)
                 [] e.ev = "beat" -> BeatBad(e)
                 [] e.ev = "smooth" -> SmoothBad(e)
                 [] e.ev = "tmask" -> TmaskBad(e)
                 [] e.ev = "hmask" -> HmaskBad(e)
                 [] e.ev = "scale" -> ScaleBad(e)
                 [] e.ev = "stft" -> StftBad(e)
                 [] e.ev = "count" -> CountBad(e)
                 [] e.ev = "tone" -> ToneBad(e)
                 [] e.ev = "tune" -> TuneBad(e)
                 [] e.ev = "bad" -> BadBad(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Bad(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
