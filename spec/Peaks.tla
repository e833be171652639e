-------------------------------- MODULE Peaks --------------------------------
(* Onset detection by peak picking on a novelty ("rise") curve.                 *)
EXTENDS Base

\* Rise curves of the detectors, for integer data
Rises(levels) == [i \in 1..(Len(levels) - 1) |-> Max2(0, levels[i + 1] - levels[i])]
HfcLevel(frame) == FoldFunctionOnSet(LAMBDA x, acc : x + acc, 0, [k \in DOMAIN frame |-> (k - 1) * frame[k] * frame[k]], DOMAIN frame)
EnergyLevel(frame) == FoldFunctionOnSet(LAMBDA x, acc : x * x + acc, 0, frame, DOMAIN frame)
\* spectral flux on frames normalised to their maximum (on the scale of 16)
Norm16(frame) == LET m == SeqMax(frame) IN IF m = 0 THEN frame ELSE [k \in DOMAIN frame |-> (frame[k] * 16) \div m]
FluxSq(a, b) == FoldFunctionOnSet(LAMBDA x, acc : x + acc, 0, [k \in DOMAIN a |-> LET d == Max2(0, b[k] - a[k]) IN d * d], DOMAIN a)
SpectralRises(frames) == LET f == [i \in DOMAIN frames |-> Norm16(frames[i])]
                         IN  [i \in 1..(Len(f) - 1) |-> FluxSq(f[i], f[i + 1])]

\* percentile threshold: the (floor(n * num/den) + 1)-th smallest, at most the largest
PctIndex(n, num, den) == Min2((n * num) \div den, n - 1) + 1
Percentile(r, idx) == SortSeq(r, <)[idx]

\* A local maximum: greater than what precedes it, not less than what follows
LocalMax(r, i) == (i = 1 \/ r[i] > r[i - 1]) /\ (i = Len(r) \/ r[i] >= r[i + 1])
\* Onset frames: rise i leads into frame i + 1, i.e. 0-based frame number i
Onsets(r, Above(_)) == IF Len(r) < 2 THEN {} ELSE { i \in DOMAIN r : LocalMax(r, i) /\ Above(r[i]) }
PctOnsets(r, num, den) == IF Len(r) < 2 THEN {}
                          ELSE LET t == Percentile(r, PctIndex(Len(r), num, den)) IN Onsets(r, LAMBDA x : x > t)

(* With real-valued curves known up to eps: what must and what may be reported. *)
MustMax(r, i, eps) == (i = 1 \/ r[i] > r[i - 1] + eps) /\ (i = Len(r) \/ r[i] >= r[i + 1] + eps)
MayMax(r, i, eps) == (i = 1 \/ r[i] > r[i - 1] - eps) /\ (i = Len(r) \/ r[i] >= r[i + 1] - eps)
Must(r, t, eps) == IF Len(r) < 2 THEN {} ELSE { i \in DOMAIN r : MustMax(r, i, eps) /\ r[i] > t + eps }
May(r, t, eps) == IF Len(r) < 2 THEN {} ELSE { i \in DOMAIN r : MayMax(r, i, eps) /\ r[i] > t - eps }

(* Robust threshold: median + k * median absolute deviation. k in quarters, the *)
(* result in sixteenths.                                                        *)
Median2(s) == LET t == SortSeq(s, <) n == Len(s) IN IF n % 2 = 0 THEN t[n \div 2] + t[n \div 2 + 1] ELSE 2 * t[n \div 2 + 1]
Mad4(s) == LET m == Median2(s) IN Median2([i \in DOMAIN s |-> Abs(2 * s[i] - m)])
Robust16(s, k4) == 8 * Median2(s) + k4 * Mad4(s)
=============================================================================
