------------------------------- MODULE Chroma -------------------------------
(* Pitch-class profiles of magnitude spectra. A spectrum m[1..n] has bin i-1 at *)
(* frequency (i-1)*res. Profiles are functions 0..11 -> Int before scaling to   *)
(* unit length.                                                                 *)
EXTENDS Pitch, Exp
PC == 0..11
Bind(F(_), x) == CHOOSE r \in { F(t) : t \in { TLCEval(x) } } : TRUE
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Root(n) == Isqrt(n, 0, 46341)

\* compressed strength of a magnitude: m^0.6 on the magnitudes used
Compress(m) == CASE m = 0 -> 0 [] m = 1 -> 1 [] m = 32 -> 8 [] m = 243 -> 27
Low == 1000000                                                  \* 100 Hz
High(nyq) == Min2(50000000, nyq)                                \* 5 kHz or the Nyquist frequency
InBand(f, nyq) == f >= Low /\ f <= High(nyq) /\ f < nyq

\* how much a partial at position p gives to class c: hard assignment or Gaussian of width sg (thousandths)
\* on the note itself and its two neighbours (hundred-thousandths)
Gauss(d, sg) == LET x == DivM(d \div 10, sg * 100)               \* d / sigma
                IN IF x > 8000000 THEN 0 ELSE ExpNeg(MulM(x, x) \div 2) \div 10
Share(p, c, soft, sg) ==
  IF ~soft THEN (IF Class(p) = c THEN 100000 ELSE 0)
  ELSE IF c \in { (Class(p) + o) % 12 : o \in {11, 0, 1} } THEN Gauss(Distance(p, c), sg) ELSE 0
\* parts: set of <<position, strength, tag>>; the profile they make
\* scale keeps sums within range: 1 for plain strengths, 10 for strengths in hundredths
Profile(parts, soft, sg, scale) == [c \in PC |-> FoldSet(LAMBDA x, a : a + x[2] * (Share(x[1], c, soft, sg) \div scale), 0, parts)]
Doubt(parts) == \E x \in parts : Torn(x[1])
\* scaled to unit length, in ten-thousandths
UnitLen(P) == LET top == Max({ P[c] : c \in PC }) IN
  IF top = 0 THEN [c \in PC |-> 0]
  ELSE Bind(LAMBDA R : LET n == Root(FoldSet(LAMBDA c, a : a + R[c] * R[c], 0, PC)) IN [c \in PC |-> (R[c] * 10000) \div n],
            [c \in PC |-> IF top >= 200000 THEN P[c] \div (top \div 10000) ELSE (P[c] * 10000) \div top])

Parts(m, res, nyq, tun) == { <<Pos((i - 1) * res) - tun, Compress(m[i]), i>> : i \in { j \in 2..Len(m) : m[j] > 0 /\ InBand((j - 1) * res, nyq) } }

\* --- peaks and harmonics (HPCP)
White(m, i, half) == LET lo == Max2(1, i - half)  hi == Min2(Len(m), i + half)
                         s == FoldSet(LAMBDA j, a : a + m[j], 0, lo..hi)
                     IN IF s = 0 THEN 0 ELSE Min2(20000000, DivM(m[i] * (hi - lo + 1), s))
Level(m, white, bins) == IF white /\ bins >= 3 THEN LET w == IF bins % 2 = 0 THEN bins + 1 ELSE bins IN [i \in DOMAIN m |-> White(m, i, w \div 2)]
                         ELSE [i \in DOMAIN m |-> m[i] * M]
PeakBins(L, res, lo, hi) == { i \in 2..(Len(L) - 1) : (i - 1) * res >= lo /\ (i - 1) * res <= hi /\ L[i] > L[i - 1] /\ L[i] >= L[i + 1] }
\* the strongest k; "torn" when the cut falls between equals
Strongest(L, P, k) == { i \in P : Cardinality({ j \in P : L[j] > L[i] }) < Max2(k, 1) }
CutTorn(L, P, k) == Cardinality(Strongest(L, P, k)) > Max2(k, 1)
NearTorn(L, P, k) == \E i \in Strongest(L, P, k) : \E j \in P \ Strongest(L, P, k) : L[i] - L[j] <= 20
PlateauTorn(L) == \E i \in 1..(Len(L) - 1) : L[i] # L[i + 1] /\ Abs(L[i] - L[i + 1]) <= 5
RECURSIVE Decay(_, _)
Decay(d, h) == IF h = 1 THEN 100000 ELSE (Decay(d, h - 1) * d) \div 100           \* hundred-thousandths
\* strengths in hundredths
Harmonics(m, S, res, lo, hi, tun, hmax, dec, comp) ==
  { <<Pos((i - 1) * res * h) - tun, ((IF comp THEN Compress(m[i]) ELSE m[i]) * (Decay(dec, h) \div h)) \div 1000, <<i, h>> >> :
      <<i, h>> \in { <<j, g>> \in S \X (1..Max2(1, hmax)) : (j - 1) * res * g <= hi /\ (j - 1) * res * g >= lo } }

\* --- smoothing over time: medians (upper) and means in a centred window
Around(n, t, half) == Max2(1, t - half)..Min2(n, t + half)
Pick(f(_), W) == [k \in 1..Cardinality(W) |-> f(Min(W) + k - 1)]
UpperMedian(s) == SortSeq(s, <)[Len(s) \div 2 + 1]
\* --- share of the steady part: h^p / (h^p + r^p), millionths
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
Mask(h, r, p) == IF h = 0 THEN 0 ELSE DivM(Pow(h, p), Pow(h, p) + Pow(r, p))
=============================================================================
