--------------------------------- MODULE Mel ---------------------------------
(* The mel-band novelty. A band is a triangle over the bins of a spectrum; the  *)
(* corners of the bands are equally spaced on the mel scale, which is the       *)
(* logarithm of 700 Hz + f. Spectrum of nb bins from 0 to the Nyquist frequency.*)
(* Frequencies in hertz, positions in millionths of a semitone of 700 + f.      *)
EXTENDS Pitch
Bands(n) == Max2(4, n)
\* nyq2 = sample rate = twice the Nyquist frequency; results in half hertz
Low2(fmin, sr) == Max2(0, Min2(2 * fmin, Max2(2, sr)))
High2(fmin, fmax, sr) == Min2(Max2(IF fmax > 0 THEN 2 * fmax ELSE sr, Low2(fmin, sr) + 2), sr)
At2(f2) == Pos(7000000 + f2 * 5000)                        \* position of f2 half hertz
\* corner i of 0..n+1
Corner(i, n, lo, hi) == lo + ((hi - lo) \div (n + 1)) * i + (((hi - lo) % (n + 1)) * i) \div (n + 1)
\* the boundary between bin b-1 and bin b, at (b - 1/2) * sr / (2 (nb - 1)); in 1/20000 Hz steps to stay in range
Between(b, nb, sr) == LET num == (2 * b - 1) * sr   den == 4 * (nb - 1) IN
                      Pos(7000000 + (num \div den) * 10000 + ((num % den) * 10000) \div den)
Borders(nb, sr) == TLCEval([b \in 1..(nb - 1) |-> Between(b, nb, sr)])
RawBin(p, B) == Cardinality({ b \in DOMAIN B : B[b] <= p })
Doubtful(p, B) == \E b \in DOMAIN B : Near(B[b], p, 1500)
Increasing(raw, nb) == FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN <<x>>
                          ELSE Append(acc, IF x <= acc[Len(acc)] THEN Min2(acc[Len(acc)] + 1, nb - 1) ELSE x), <<>>, raw)
Corners(n, nb, sr, fmin, fmax) ==
  LET lo == At2(Low2(fmin, sr)) hi == At2(High2(fmin, fmax, sr)) IN [i \in 1..(n + 2) |-> Corner(i - 1, n, lo, hi)]
\* weight (ten-thousandths) of bin b in the triangle l < c < r; the middle counts mid times
Weight(b, l, c, r, mid) == IF b <= l \/ b >= r THEN 0 ELSE IF b = c THEN 10000 * mid
                           ELSE IF b < c THEN ((b - l) * 10000) \div (c - l) ELSE ((r - b) * 10000) \div (r - c)
BandLevel(fr, l, c, r, mid) == IF ~(l < c /\ c < r) THEN 0
   ELSE FoldLeft(LAMBDA acc, b : acc + fr[b + 1] * Weight(b, l, c, r, mid), 0, [k \in 1..(r - l + 1) |-> l + k - 1])
Levels(fr, P, n, mid) == [m \in 1..n |-> BandLevel(fr, P[m], P[m + 1], P[m + 2], mid)]
\* squared rise over the largest neighbouring band of the frame before
RiseSq(L, k) == [i \in 1..(Len(L) - 1) |->
   FoldLeft(LAMBDA acc, b : LET pm == Max({ L[i][c] : c \in Max2(1, b - k)..Min2(Len(L[i]), b + k) })
                                d == Max2(0, L[i + 1][b] - pm) IN acc + MulM(d, d), 0, [j \in DOMAIN L[1] |-> j])]
\* the largest rise itself: RiseSq cannot resolve rises below a tenth
MaxRise(L, k) == Max({0} \cup { L[i + 1][b] - Max({ L[i][c] : c \in Max2(1, b - k)..Min2(Len(L[i]), b + k) }) : i \in 1..(Len(L) - 1), b \in DOMAIN L[1] })
Faint(L, k) == MaxRise(L, k) \in 1..3000
=============================================================================
