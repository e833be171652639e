-------------------------------- MODULE Tempo --------------------------------
(* The adaptive (Bayesian) tempo tracker. Times in units of 100 microseconds,   *)
(* tempi in hundredths of a BPM, probabilities in millionths.                   *)
EXTENDS Exp

MinuteC == 60000000                              \* 100-microsecond units per minute, times 100
Lo == 6000
Hi == 18000
Step == 50
Reach == 500

\* candidate tempi around the current one
NumCand(cur) == LET lo == Max2(cur - Reach, Lo) hi == Min2(cur + Reach, Hi)
                IN  IF lo > hi THEN 0 ELSE (hi - lo) \div Step + 1
Cand(cur, i) == Max2(cur - Reach, Lo) + (i - 1) * Step
Cands(cur) == { Cand(cur, i) : i \in 1..NumCand(cur) }

\* distance of an onset (relative to the anchor) to the nearest lattice point
Point(k, c) == k * (MinuteC \div c) + (k * (MinuteC % c) + c \div 2) \div c
DistTo(t, c) == LET k == t \div (MinuteC \div c) IN
                Min({ Abs(t - Point(j, c)) : j \in { x \in (k - 1)..(k + 1) : x >= 0 } })
\* sum of squared distances (onsets: sequence of times, anchor is the first)
SumSq(ons, c) == FoldLeft(LAMBDA acc, t : LET d == DistTo(Abs(t - ons[1]), c) IN acc + d * d, 0, ons)
SumD(ons, c) == FoldLeft(LAMBDA acc, t : acc + DistTo(Abs(t - ons[1]), c) + 1, 0, ons)
\* exponent mean(d^2) / (2 * 0.05^2) in millionths: d in 1e-4 s, so mean(d^2) * 1e-8 / 0.005 = mean * 2e-6
Exponent(ons, c) == 2 * (SumSq(ons, c) \div Len(ons)) + (2 * (SumSq(ons, c) % Len(ons))) \div Len(ons)
Likelihood(ons, c) == ExpNeg(Exponent(ons, c))
Penalty(ch) == IF ch < 100 THEN 10 ELSE IF ch < 300 THEN 8 ELSE 5
\* the candidates whose fit is best, up to the resolution of the measurement
BestFit(ons, cur) == IF NumCand(cur) = 0 THEN {cur}
                     ELSE LET best == Min({ SumSq(ons, c) : c \in Cands(cur) })
                          IN  { c \in Cands(cur) : SumSq(ons, c) <= best + 4 * SumD(ons, c) + 8 }
Usable(cur) == cur > 0 /\ cur <= 30000
=============================================================================
