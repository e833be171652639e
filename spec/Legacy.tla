------------------------------- MODULE Legacy -------------------------------
(* Onset-based tempo estimation: candidates of two methods, their merging and   *)
(* the final selection. Tempi in hundredths of a BPM, confidences in millionths.*)
(* A candidate is [b |-> tempo, c |-> confidence].                              *)
(* The parameter d (hundredths of a BPM) shifts every comparison of tempi, so   *)
(* that outcomes which depend on rounding can be told from those that do not.   *)
EXTENDS Base

InRange(b) == b >= 6000 /\ b <= 18000
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

\* --- octave errors: a candidate of the first method at twice (half) the tempo of one of the
\* --- three best of the second method is moved to the latter
IsDouble(x, y, tol, d) == (Abs(x - 2 * y) + d) * 10000 < tol * 2 * y            \* tol in ten-thousandths
Fold2(a, top, tol, d) ==
  LET hit == { i \in DOMAIN top : IsDouble(a.b, top[i].b, tol, d) /\ (InRange(top[i].b) \/ a.b > 20000 \/ a.b < 3000) }
  IN  IF hit = {} THEN a ELSE [a EXCEPT !.b = top[Min(hit)].b]
FoldHalf(a, top, tol, d) ==
  LET hit == { i \in DOMAIN top : IsDouble(top[i].b, a.b, tol, d) /\ InRange(top[i].b) }
  IN  IF hit = {} THEN a ELSE [a EXCEPT !.b = top[Min(hit)].b]
Octaves(ac, cb, tol, d) ==
  LET top == Take(cb, 3) IN [i \in DOMAIN ac |-> FoldHalf(Fold2(ac[i], top, tol, d), top, tol, d)]

\* --- the best ten of a method, plus anything else in the usual range that is not near one of them
Limited(ac, d) ==
  FoldLeft(LAMBDA acc, x : IF InRange(x.b) /\ \A i \in DOMAIN acc : Abs(acc[i].b - x.b) >= 100 + d THEN Append(acc, x) ELSE acc,
           Take(ac, 10), ac)

\* --- grouping by proximity to the running mean
AddTo(groups, x, d) ==
  LET hit == { i \in DOMAIN groups : Abs(x.b - groups[i].b) <= 200 + d }
  IN  IF hit = {} THEN Append(groups, [b |-> x.b, tot |-> x.c, n |-> 1, mx |-> x.c])
      ELSE LET i == Min(hit) g == groups[i] IN
           [groups EXCEPT ![i] = [b |-> (g.b * g.n + x.b + (g.n + 1) \div 2) \div (g.n + 1), tot |-> g.tot + x.c, n |-> g.n + 1, mx |-> Max2(g.mx, x.c)]]
Groups(all, d) == FoldLeft(LAMBDA acc, x : AddTo(acc, x, d), <<>>, all)

Disagree(ac, cb, d) == ac # <<>> /\ cb # <<>> /\ Abs(ac[1].b - cb[1].b) > 1000 + d /\ Abs(ac[1].b - cb[1].b) < 5000 + d
BaseConf(g, dis) == LET c == IF g.n >= 2 THEN Min2(M, ((g.tot \div g.n + g.mx) \div 2) + ((g.tot \div g.n + g.mx) \div 2) \div 5) ELSE Min2(M, g.tot)
                    IN  IF dis /\ g.n = 1 THEN (c \div 10) * 7 ELSE c

\* --- consensus between the best five of each method
Direct(top, b, d) == \E i \in DOMAIN top : Abs(top[i].b - b) < 250 + d
Ratio(x, y, num, den, d) == LET hi == Max2(x, y) lo == Min2(x, y) IN 10 * Abs(den * hi - num * lo) < den * lo + d * 40
Harmonic(top, b, d) == \E i \in DOMAIN top : Ratio(top[i].b, b, 2, 1, d) \/ Ratio(top[i].b, b, 3, 2, d)
Boost(c, b, a5, c5, d) ==
  LET ad == Direct(a5, b, d)  cd == Direct(c5, b, d)
      c1 == IF ad /\ cd THEN (c \div 2) * 3
            ELSE IF (ad /\ Harmonic(c5, b, d)) \/ (cd /\ Harmonic(a5, b, d)) THEN (c \div 10) * 13 ELSE c
  IN  IF cd /\ InRange(b) THEN (c1 \div 10) * 14 ELSE c1

\* if none of the first five is in the usual range, the first that is gets doubled
Rescue(es) ==
  IF \E i \in 1..Min2(5, Len(es)) : InRange(es[i].b) THEN es
  ELSE LET r == { i \in DOMAIN es : InRange(es[i].b) } IN
       IF r = {} THEN es ELSE [es EXCEPT ![Min(r)].c = 2 * es[Min(r)].c]

\* the merged estimates, unordered: sequence of [b, c, n]
Merge(ac, cb, tol, d) ==
  LET ac1 == Octaves(ac, cb, tol, d)
      lim == Limited(ac1, d)
      cl == Take(cb, 10)
      gs == Groups(lim \o cl, d)
      dis == Disagree(ac1, cb, d)
      es == [i \in DOMAIN gs |-> [b |-> gs[i].b, n |-> gs[i].n, c |-> Boost(BaseConf(gs[i], dis), gs[i].b, Take(lim, 5), Take(cl, 5), d)]]
  IN  IF ac = <<>> /\ cb = <<>> THEN <<>> ELSE Rescue(es)

\* --- rank: confidence, halved and set back by 0.5 outside the usual range
Key(e) == IF InRange(e.b) THEN e.c ELSE e.c \div 2 - 500000

-----------------------------------------------------------------------------
(* Guardrails and selection                                                     *)
\* g: [pmin, pmax, smin, smax, mp, ms, me] (multipliers in hundredths)
Mul(g, b) == IF b >= g.pmin /\ b <= g.pmax THEN g.mp ELSE IF b >= g.smin /\ b <= g.smax THEN g.ms ELSE g.me
Sane(g) == LET p1 == Min2(g.pmin, g.pmax) p2 == Max2(g.pmin, g.pmax) IN
           [g EXCEPT !.pmin = p1, !.pmax = p2, !.smin = Min2(Min2(g.smin, g.smax), p1), !.smax = Max2(Max2(g.smin, g.smax), p2)]
Scaled(es, g) == [i \in DOMAIN es |-> [es[i] EXCEPT !.c = (es[i].c \div 100) * Mul(g, es[i].b)]]

-----------------------------------------------------------------------------
(* The two methods. Onsets as frame numbers (first) or sample positions (second)*)
Acf(F, lag) == Cardinality({ f \in F : (f + lag) \in F })
\* score of a comb tempo: expected beats (units of 1/100 sample at 1000 Hz) with an onset near them
CombPer(k, b) == k * (600000000 \div b) + (k * (600000000 % b)) \div b
CombTol(b) == LET t == Clamp(1200000 \div b, 50, 150) IN t     \* thousandths of the period: 0.1 * 120 / bpm
CombTolU(b) == (CombPer(1, b) \div 1000) * CombTol(b) + ((CombPer(1, b) % 1000) * CombTol(b)) \div 1000
NearOns(x, ons) == Min({ Abs(x - 100 * ons[i]) : i \in DOMAIN ons })
Aligned(ons, b, nb, slack) == Cardinality({ k \in 0..(nb - 1) : NearOns(CombPer(k, b), ons) <= CombTolU(b) + slack })
=============================================================================
