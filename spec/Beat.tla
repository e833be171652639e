-------------------------------- MODULE Beat --------------------------------
(* Beat grids: the tempo lattice anchored at the first onset, support by        *)
(* onsets, bars, tempo segments, meter and stability.                           *)
(* Times are in ticks of 10 microseconds, tempi in hundredths of a BPM.         *)
EXTENDS Base

Sec == 100000                                    \* ticks per second
MinuteC == 600000000                             \* ticks per minute, times 100
Radius == 5365                                   \* support radius: 0.025 s * sqrt(2 ln 10)
SameBeat == 5000                                 \* beats closer than this are one
RefineTol == 12                                  \* rounding of 32-bit times

\* k-th point of the lattice of tempo bpm, relative to its anchor
Point(k, bpm) == k * (MinuteC \div bpm) + (k * (MinuteC % bpm) + bpm \div 2) \div bpm
Period(bpm) == Point(1, bpm)
Dist(x, ons) == Min({ Abs(x - ons[i]) : i \in DOMAIN ons })

\* lattice positions (as numbers k) that could be reported for these onsets
MaxK(ons, bpm) == Ceil(ons[Len(ons)] - ons[1], Period(bpm)) + 1
MustK(ons, bpm) == { k \in 0..MaxK(ons, bpm) : Dist(ons[1] + Point(k, bpm), ons) < Radius - RefineTol }
MayK(ons, bpm) == { k \in 0..MaxK(ons, bpm) : Dist(ons[1] + Point(k, bpm), ons) < Radius + RefineTol }
OnLattice(b, ons, bpm, K, tol) == \E k \in K : Near(b, ons[1] + Point(k, bpm), tol)
\* the beats are the supported lattice points, each once
IsTracked(beats, ons, bpm, tol) ==
  \E may \in { MayK(ons, bpm) } :               \* (bound as the element of a singleton: evaluated once)
    /\ \A i \in DOMAIN beats : OnLattice(beats[i], ons, bpm, may, tol)
    /\ \A k \in MustK(ons, bpm) : \E i \in DOMAIN beats : Near(beats[i], ons[1] + Point(k, bpm), tol)

-----------------------------------------------------------------------------
(* Bars: the first beat is a downbeat; from then on a beat is one exactly when  *)
(* it is one bar (+-10 %) after the last downbeat.                              *)
BarLen(bpb, bpm) == Point(bpb, bpm)
Downbeats(beats, bar, tol) ==
  IF beats = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA acc, b : IF Abs(b - (acc[Len(acc)] + bar)) <= tol THEN Append(acc, b) ELSE acc,
                <<beats[1]>>, Tail(beats))
\* the same, as a relation that leaves the choice open right at the tolerance
IsDownbeats(beats, D, bar, slack) ==
  IF beats = <<>> THEN D = {}
  ELSE /\ beats[1] \in D
       /\ \A i \in 2..Len(beats) :
            LET last == Max({ x \in D : x < beats[i] })
                d == Abs(beats[i] - (last + bar))
            IN  /\ 10 * (d + slack) < bar => beats[i] \in D
                /\ 10 * (d - slack) > bar => beats[i] \notin D

-----------------------------------------------------------------------------
(* Statistics of the gaps between consecutive beats                             *)
Gaps(beats) == SelectSeq([i \in 1..(Len(beats) - 1) |-> beats[i + 1] - beats[i]], LAMBDA x : x > 0)
Mean(g) == (Sum(g) + Len(g) \div 2) \div Len(g)
\* floor of the square root
ISqrt(n) == FoldLeft(LAMBDA r, b : IF r + b <= 46340 /\ (r + b) * (r + b) <= n THEN r + b ELSE r, 0,
                     <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
\* relative deviation in units of 1/u (u = 10000 below four times the mean, else 1000)
Rel(g, m, u) == LET d == Abs(g - m) IN
                IF u = 10000 THEN (IF d <= 200000 THEN (d * 10000 + m \div 2) \div Max2(1, m)
                                   ELSE IF m <= 400000 THEN (d * 1000) \div Max2(1, m \div 10) ELSE (d * 100) \div (m \div 100))
                ELSE Min2(46000, IF d <= 2000000 THEN (d * 1000 + m \div 2) \div Max2(1, m) ELSE ((d \div 10) * 100) \div Max2(1, m \div 100))
\* coefficient of variation in ten-thousandths
Cv4(g) == IF g = <<>> THEN 0
          ELSE LET m == Mean(g) n == Len(g)
                   u == IF \A i \in DOMAIN g : Abs(g[i] - m) < 4 * m THEN 10000 ELSE 1000
               IN  (10000 \div u) * ISqrt(FoldLeft(LAMBDA acc, x : acc + (Rel(x, m, u) * Rel(x, m, u)) \div n, 0, g))
\* 1 / (1 + cv), in millionths
Stability(beats) == LET g == Gaps(beats) IN IF g = <<>> THEN 0 ELSE DivM(10000, 10000 + Cv4(g))

-----------------------------------------------------------------------------
(* Tempo segments: windows of 4..8 s overlapping by half over the beats.        *)
SegLen(beats) == Clamp((beats[Len(beats)] - beats[1]) \div 4, 4 * Sec, 8 * Sec)
NumWin(beats) == Ceil(beats[Len(beats)] - beats[1], SegLen(beats) \div 2)
WinStart(beats, k) == beats[1] + (k - 1) * (SegLen(beats) \div 2)
WinEnd(beats, k) == Min2(WinStart(beats, k) + SegLen(beats), beats[Len(beats)])
InWin(beats, a, b) == SelectSeq(beats, LAMBDA x : x >= a /\ x <= b)
IsVariable(g) == Cv4(g) > 1500
SegConf(g) == Max2(0, M - Min2(M, (Cv4(g) * 1000) \div 3))     \* 1 - cv/0.3
Short(beats) == Len(beats) < 4 \/ beats[Len(beats)] - beats[1] < 2 * Sec

-----------------------------------------------------------------------------
(* Meter: how well the gaps repeat after 4, 3 or 6 beats.                       *)
MeterScore(g, lag) ==
  IF Len(g) <= lag THEN 0
  ELSE LET m == Mean(g)
           n == Len(g) - lag
           t == FoldLeft(LAMBDA acc, i : acc + DivM(m, m + Abs(g[i] - g[i + lag])) \div 10, 0, [i \in 1..n |-> i])
           s == (t \div n) * 10 + ((t % n) * 10) \div n
       IN  Min2(M, (s \div 10) * 7 + (DivM(10000, 10000 + Cv4(g)) \div 10) * 3)
Margin == 1000
\* which meters may be reported: 4/4 unless another fits better by the margin
MeterOk(g, bpb, slack) ==
  LET s4 == MeterScore(g, 4) s3 == MeterScore(g, 3) s6 == MeterScore(g, 6) IN
  CASE bpb = 4 -> s3 <= s4 + Margin + slack /\ s6 <= s4 + Margin + slack
    [] bpb = 3 -> s3 >= s4 + Margin - slack /\ s6 <= s3 + Margin + slack
    [] bpb = 6 -> s6 >= s4 + Margin - slack /\ (s6 >= s3 + Margin - slack \/ s3 <= s4 + Margin + slack)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Refinement of a track whose tempo varies: varying segments are re-tracked,   *)
(* the others keep their beats; segments overlap, so duplicates are removed.    *)
Refined(orig, segs) ==
  LET parts == [i \in DOMAIN segs |-> IF segs[i].var THEN segs[i].re
                                      ELSE SelectSeq(orig, LAMBDA x : x >= segs[i].a /\ x <= segs[i].b)]
      all == SortSeq(FoldLeft(LAMBDA acc, p : acc \o p, <<>>, parts), <)
  IN  IF all = <<>> THEN orig
      ELSE FoldLeft(LAMBDA acc, b : IF b - acc[Len(acc)] < SameBeat THEN acc ELSE Append(acc, b), <<all[1]>>, Tail(all))
\* beats so close to the edge of a segment that rounding decides on which side they are; the outer edges
\* are exact, unless a full window ends there
Edgy(beats, a, b) ==
  \E i \in DOMAIN beats :
     \/ Near(beats[i], a, 60) /\ ~(i = 1 /\ beats[i] = a)
     \/ Near(beats[i], b, 60) /\ ~(i = Len(beats) /\ beats[i] = b /\ a + SegLen(beats) > b + 200)
\* is the outcome of the refinement independent of rounding?
Clear(orig, segs) ==
  LET parts == [i \in DOMAIN segs |-> IF segs[i].var THEN segs[i].re ELSE <<>>]
      all == SortSeq(FoldLeft(LAMBDA acc, p : acc \o p, orig, parts), <)
  IN  /\ \A i, j \in DOMAIN all : i < j => ~Near(all[j] - all[i], SameBeat, 12)
      /\ \A i \in DOMAIN segs : ~segs[i].var => ~Edgy(orig, segs[i].a, segs[i].b)

-----------------------------------------------------------------------------
(* What a user relies on in any grid                                            *)
GridOrdered(beats) == \A i \in DOMAIN beats : Fin(beats[i]) /\ beats[i] >= 0 /\ (i > 1 => beats[i] > beats[i - 1])
Nested(beats, down, bars) == /\ \A i \in DOMAIN down : \E j \in DOMAIN beats : beats[j] = down[i]
                             /\ StrictlyIncreasing(down) /\ bars = down
                             /\ (beats = <<>> <=> down = <<>>)
                             /\ beats # <<>> => down[1] = beats[1]
=============================================================================
