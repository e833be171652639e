------------------------------- MODULE Novelty -------------------------------
(* Novelty curves: how much each frame of a spectrogram rises over the previous *)
(* one. Frames are sequences of small non-negative integers; a band is a range  *)
(* lo..hi of bins (1-based, inclusive).                                         *)
EXTENDS Base
Pos(x) == IF x > 0 THEN x ELSE 0
Rises(s) == [i \in 1..(Len(s) - 1) |-> Pos(s[i + 1] - s[i])]
Energy(fr, lo, hi) == FoldLeft(LAMBDA acc, k : acc + fr[k] * fr[k], 0, [k \in 1..(hi - lo + 1) |-> lo + k - 1])
Hfc(fr, lo, hi) == FoldLeft(LAMBDA acc, k : acc + (k - 1) * fr[k] * fr[k], 0, [k \in 1..(hi - lo + 1) |-> lo + k - 1])
EnergyRise(F, lo, hi) == Rises([i \in DOMAIN F |-> Energy(F[i], lo, hi)])
HfcRise(F, lo, hi) == Rises([i \in DOMAIN F |-> Hfc(F[i], lo, hi)])
\* relative to the largest value (millionths); all zero if there is no rise
Relative(s) == LET m == IF s = <<>> THEN 0 ELSE SeqMax(s) IN [i \in DOMAIN s |-> IF m = 0 THEN 0 ELSE DivM(s[i], m)]
\* squared spectral flux: frames relative to their own maximum
RelFrame(fr) == Relative(fr)
FluxSq(F) == LET R == [i \in DOMAIN F |-> RelFrame(F[i])] IN
             [i \in 1..(Len(F) - 1) |-> FoldLeft(LAMBDA acc, k : LET d == Pos(R[i + 1][k] - R[i][k]) IN acc + MulM(d, d), 0, [k \in DOMAIN F[1] |-> k])]
\* squared superflux on logarithmic levels: compared with the largest neighbour of the previous frame within k bins
SuperSq(L, k, lo, hi) ==
  [i \in 1..(Len(L) - 1) |->
     FoldLeft(LAMBDA acc, b : LET pm == Max({ L[i][c] : c \in Max2(lo, b - k)..Min2(hi, b + k) })
                                  d == Pos(L[i + 1][b] - pm) IN acc + d * d, 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])]
\* moving averages with a window of w frames, cut at the ends (w > 1)
WinLo(i, w) == Max2(1, i - w \div 2)
WinHi(i, w, n) == Min2(n, i + w \div 2)
MeanAt(s, i, w) == LET a == WinLo(i, w) b == WinHi(i, w, Len(s)) IN Sum(SubSeq(s, a, b)) \div (b - a + 1)
LocalMean(s, w) == IF w <= 1 THEN s ELSE [i \in DOMAIN s |-> Pos(s[i] - MeanAt(s, i, w))]
Smooth(s, w) == IF w <= 1 \/ Len(s) < 3 THEN s ELSE [i \in DOMAIN s |-> MeanAt(s, i, w)]
\* the blend of three curves (millionths) with weights (hundredths), before conditioning
Blend(s, e, h, ws, we, wh) ==
  LET n == Min2(Len(s), Min2(Len(e), Len(h))) w == ws + we + wh IN
  [i \in 1..n |-> IF w = 0 THEN 0 ELSE (s[i] * ws + e[i] * we + h[i] * wh) \div w]
=============================================================================
