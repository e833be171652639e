------------------------------ MODULE Tempogram ------------------------------
(* Tempo from periodicity: two tempograms (frequency and lag domain) nominate   *)
(* and support tempi; the best supported one is chosen.                         *)
(* Tempi in thousandths of a BPM, strengths and scores in 10^-8.                *)
EXTENDS Base
U == 100000000
PrefLo == 60000
PrefHi == 180000
Merge == 750
TopN == 8
FirstN(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
\* metrical relatives of a tempo
Relatives(b) == { b, b \div 2, 2 * b, b \div 3, 3 * b, (2 * b) \div 3, (3 * b) \div 2 }
\* a variant is [w, f, a]: weight and the two tempograms, each a sequence of <<tempo, strength>>, strongest first
SeedsOf(v) == { FirstN(v.f, TopN)[i][1] : i \in 1..Min2(TopN, Len(v.f)) } \cup { FirstN(v.a, TopN)[i][1] : i \in 1..Min2(TopN, Len(v.a)) }
Nominated(vs, lo, hi) == { r \in UNION { Relatives(s) : s \in UNION { SeedsOf(vs[i]) : i \in DOMAIN vs } } : r >= lo /\ r <= hi }

\* strengths a tempo can be credited with: that of the nearest entry within tol
\* (entries equally near up to rounding are all possible)
Support(tg, b, tol) ==
  LET d == FoldLeft(LAMBDA m, x : Min2(m, Abs(x[1] - b)), 1000000000, tg)
  IN  (IF d <= tol + 2 THEN { tg[i][2] : i \in { j \in DOMAIN tg : Abs(tg[j][1] - b) <= Min2(d + 4, tol + 2) } } ELSE {})
        \cup (IF d >= tol - 2 THEN {0} ELSE {})
Within(x, S, t) == \E y \in S : Near(x, y, t)
\* weighted mean over variants: bounds
Lows(S) == Min(S)
Highs(S) == Max(S)
WSum(vs) == FoldLeft(LAMBDA acc, v : acc + v.w, 0, vs)
\* sum of w_i * x_i / sum of w_i, weights in hundredths
WMean(vs, x) == LET w == WSum(vs) IN FoldLeft(LAMBDA acc, i : acc + (x[i] \div w) * vs[i].w + ((x[i] % w) * vs[i].w) \div w, 0, [i \in DOMAIN vs |-> i])

Blend(a, f) == (a \div 100) * 55 + (f \div 100) * 45
Prior(b, s) == IF b > PrefHi THEN (s \div 100) * 80 ELSE IF b < PrefLo THEN (s \div 100) * 90 ELSE s
\* the possible priors when b is at a boundary up to rounding
Priors(b, s) == { Prior(b + d, s) : d \in {-2, 0, 2} }

\* the choice: head of the ranking, or its half if that is a candidate and the head is not
\* clearly (more than twice) stronger in both tempograms. r: ranked sequence of [b, s, f, a].
\* d, e: perturbations of the tempo and strength comparisons
Clearly(x, y, e) == x + 100 > 2 * (y + 100) + e
Choice(r, lo, hi, d, e) ==
  LET half == r[1].b \div 2
      cand == { i \in DOMAIN r : Abs(r[i].b - half) < Merge + d }
  IN  IF r[1].b > PrefHi + d /\ half >= lo - d /\ half <= hi + d /\ cand # {}
      THEN LET i == Min(cand) IN IF Clearly(r[1].a, r[i].a, e) /\ Clearly(r[1].f, r[i].f, e) THEN 1 ELSE i
      ELSE 1
Chosen(r, lo, hi) == { Choice(r, lo, hi, d, e) : d \in {-3, 0, 3}, e \in {-40, 0, 40} }
\* lead over the runner-up
Lead(r, i) == IF Len(r) < 2 THEN r[i].s ELSE Max2(0, r[i].s - r[2].s)
Agreement(vs, b, d) == Cardinality({ t \in {1, 2} : LET tg == IF t = 1 THEN vs[1].f ELSE vs[1].a IN tg # <<>> /\ tg[1][1] > 0 /\ Abs(tg[1][1] - b) < 2000 + d })

-----------------------------------------------------------------------------
(* The lag-domain tempogram of an integer curve x at fr frames per second       *)
(* (given as sr / hop), and the frequency-domain one.                           *)
Lags(sr, hop, b, d) == { (60000 * sr) \div (hop * bb) : bb \in {b - d, b, b + d} }
LagSum(x, g) == FoldLeft(LAMBDA acc, i : acc + x[i] * x[i + g], 0, [i \in 1..Max2(0, Len(x) - g) |-> i])
LagMean(x, g) == IF g >= Len(x) THEN 0 ELSE DivM(LagSum(x, g), Len(x) - g)     \* millionths
=============================================================================
