------------------------------ MODULE MultiRes ------------------------------
(* Fusion of the tempo candidates found at three time resolutions (hops 256,    *)
(* 512 and 1024). Tempi in ten-thousandths of a BPM, scores and confidences in  *)
(* millionths, weights in hundredths. A candidate list is a sequence of         *)
(* <<tempo, score>>; cs = <<list at 256, list at 512, list at 1024>>.           *)
(* Scores carry rounding: every comparison yields the set of outcomes that the  *)
(* rounding leaves open, and the fusion yields a set of possible results        *)
(* (a single one almost always).                                                *)
EXTENDS Base
B(x) == x * 10000
EB == 6
ES == 12
Less(x, y, e) == IF x < y - e THEN {TRUE} ELSE IF x > y + e THEN {FALSE} ELSE {TRUE, FALSE}
In(x, lo, hi) == IF x > lo + EB /\ x < hi - EB THEN {TRUE} ELSE IF x < lo - EB \/ x > hi + EB THEN {FALSE}
                 ELSE {TRUE, FALSE}
Scale(x, p) == (x * p) \div 100
Pct(x, p) == (x \div 100) * p + ((x % 100) * p) \div 100
\* score of the candidate nearest to b, no further than tol away
Look(c, b, tol) ==
  LET d == FoldLeft(LAMBDA m, x : Min2(m, Abs(x[1] - b)), 1000000000, c)
  IN  (IF d <= tol + EB THEN { c[i][2] : i \in { j \in DOMAIN c : Abs(c[j][1] - b) <= Min2(d + 2 * EB, tol + EB) } } ELSE {})
        \cup (IF d >= tol - EB THEN {0} ELSE {})
\* total support of a tempo and the number of resolutions that give any
Supports(cs, b, tol) == { <<x + y + z, Cardinality({ i \in 1..3 : <<x, y, z>>[i] > 0 })>> : x \in Look(cs[1], b, tol), y \in Look(cs[2], b, tol), z \in Look(cs[3], b, tol) }

-----------------------------------------------------------------------------
(* Hypotheses around one candidate t of the middle resolution: t, 2t and t/2.   *)
Weigh(o, x, y, z) == Pct(x, o.w[1]) + Pct(y, o.w[2]) + Pct(z, o.w[3])
Mixed(o, t5, x5) == Pct(t5, o.fac) + Pct(x5, 100 - o.fac)
\* the coarse resolution prefers t over the rival: the rival loses a tenth
Prefers(t, x) == IF t = 0 /\ x = 0 THEN {FALSE} ELSE Less(Pct(x, 102), t, 2)
Discount(h, S) == { IF p THEN Pct(h, 90) ELSE h : p \in S }
\* a rival that is not clearly stronger at the resolution that would show it is cut down, once or twice
Unproven(x, t) == IF x = 0 /\ t = 0 THEN {1} ELSE
                  { IF p THEN IF q THEN 2 ELSE 1 ELSE 0 : p \in Less(x + 1, Pct(t + 1, 110), 2), q \in Less(x + 1, t + 1, 1) }
Cut(h, n) == IF n = 0 THEN h ELSE IF n = 1 THEN Pct(h, 75) ELSE Pct(Pct(h, 75), 75)
PriorOf(b, h) == IF b > B(210) THEN Pct(h, 80) ELSE IF b > B(180) THEN Pct(h, 90) ELSE IF b < B(60) THEN Pct(h, 92) ELSE h
Priors(b, h) == { PriorOf(b + d, h) : d \in {-EB, 0, EB} }

\* L: the hypotheses in range as <<tempo, score>>, the candidate itself first; raw: its score before the prior
Picks(o, L, raw) ==
  UNION { LET rest == { L[j][2] : j \in DOMAIN L \ {i} }
              margin == Max2(0, L[i][2] - (IF rest = {} THEN 0 ELSE Max(rest)))
              stays == IF i = 1 THEN {FALSE} ELSE Less(margin, o.thr, ES)
          IN  UNION { LET b == IF k THEN L[1][1] ELSE L[i][1]
                          s == IF k THEN raw ELSE L[i][2]
                          lifts == IF ~o.human THEN {FALSE}
                                   ELSE { p /\ q /\ u : p \in Less(margin, o.thr, ES), q \in Less(margin, 50000, ES), u \in In(b, B(70), B(180)) }
                      IN  { <<b, IF f THEN s + 50000 ELSE s>> : f \in lifts } : k \in stays }
        : i \in { i \in DOMAIN L : \A j \in DOMAIN L : L[j][2] <= L[i][2] + ES } }
Hyps(o, cs, t) ==
  LET T == { <<x, y, z>> : x \in Look(cs[1], t, o.tol), y \in Look(cs[2], t, o.tol), z \in Look(cs[3], t, o.tol) }
      D == { <<x, y, z>> : x \in Look(cs[1], 2 * t, o.tol), y \in Look(cs[2], 2 * t, o.tol), z \in Look(cs[3], 2 * t, o.tol) }
      H == { <<x, y, z>> : x \in Look(cs[1], t \div 2, o.tol), y \in Look(cs[2], t \div 2, o.tol), z \in Look(cs[3], t \div 2, o.tol) }
      one(s, d, h) ==
        LET raw == Weigh(o, s[1], s[2], s[3])
            ds == UNION { Discount(Cut(Weigh(o, d[1], Mixed(o, s[2], d[2]), d[3]), n), Prefers(s[3], d[3])) : n \in Unproven(d[1], s[1]) }
            hs == UNION { Discount(Cut(Weigh(o, h[1], Mixed(o, s[2], h[2]), h[3]), n), Prefers(s[3], h[3])) : n \in Unproven(h[3], s[3]) }
        IN  UNION { UNION { Picks(o, <<<<t, rt>>>> \o (IF id THEN <<<<2 * t, rd>>>> ELSE <<>>) \o (IF ih THEN <<<<t \div 2, rh>>>> ELSE <<>>), raw)
                            : rd \in Priors(2 * t, dd), rh \in Priors(t \div 2, hh), id \in In(2 * t, o.min, o.max), ih \in In(t \div 2, o.min, o.max) }
                    : rt \in Priors(t, raw), dd \in ds, hh \in hs }
  IN  UNION { one(s, d, h) : s \in T, d \in D, h \in H }

\* hs: sequence of the sets of hypotheses. The possible best ones, with bounds for the runner-up.
Far(x, b) == Abs(x[1] - b) >= 7500
SecondLo(hs, b) == Max({ 0 } \cup { Min({ IF Abs(g[1] - b) >= 7500 + EB THEN g[2] ELSE 0 : g \in hs[j] }) : j \in DOMAIN hs })
SecondHi(hs, b) == Max({ 0 } \cup { Max({ IF Abs(g[1] - b) >= 7500 - EB THEN g[2] ELSE 0 : g \in hs[j] }) : j \in DOMAIN hs })
Best(hs) == { h \in UNION { hs[i] : i \in DOMAIN hs } : \A j \in DOMAIN hs : \E g \in hs[j] : g[2] <= h[2] + 2 * ES }

-----------------------------------------------------------------------------
(* The winner is moved to a better metrical level only with support.            *)
\* x = <<tempo, score>>
FoldDown(o, cs, x) ==
  IF x[1] < B(170) - EB THEN {x} ELSE
  LET half == x[1] \div 2 IN
  { IF high /\ inzone /\ ok[1] THEN <<half, ok[2]>> ELSE x :
      high \in { ~b : b \in Less(x[1], B(170), EB) }, inzone \in In(half, Max2(B(70), o.min), Min2(B(120), o.max)),
      ok \in UNION { { <<g /\ h[2] = 3 /\ s[1] > 0, h[1]>> : g \in { ~b : b \in Less(h[1], Pct(s[1], 45), 3) } } : s \in Supports(cs, x[1], o.tol), h \in Supports(cs, half, o.tol) } }
FoldUp(o, cs, x) ==
  IF x[1] > B(80) + EB THEN {x} ELSE
  LET dbl == 2 * x[1] IN
  { IF low /\ inzone /\ ok[1] THEN <<dbl, ok[2]>> ELSE x :
      low \in { ~b : b \in Less(B(80), x[1], EB) }, inzone \in In(dbl, Max2(B(70), o.min), Min2(B(180), o.max)),
      ok \in UNION { { <<g /\ h[2] >= 2 /\ s[1] > 0, h[1]>> : g \in { ~b : b \in Less(h[1], Pct(s[1], 55), 3) } } : s \in Supports(cs, x[1], o.tol), h \in Supports(cs, dbl, o.tol) } }

\* how well the pulse of tempo b stands out of the novelty curve v (10^-5): the best phase of the mean of
\* the peaks at the beats, less 0.6 of those half way and 0.4 of those at the thirds, relative to the mean
Around(v) == [i \in DOMAIN v |-> Max({ v[j] : j \in Max2(1, i - 2)..Min2(Len(v), i + 2) })]
Points(i0, p, n) == IF i0 > n THEN {} ELSE { i0 + k * p : k \in 0..((n - i0) \div p) }
MeanAt(m, S) == IF S = {} THEN 0 ELSE (FoldSet(LAMBDA i, acc : acc + m[i], 0, S) * 10) \div Cardinality(S)
PhaseContrast(m, n, p, ph) ==
  LET beats == Points(ph, p, n)
      half == IF p >= 6 THEN MeanAt(m, Points(ph + p \div 2, p, n)) ELSE 0
      third == IF p >= 9 THEN LET a == Points(ph + p \div 3, p, n)  b == Points(ph + (2 * p) \div 3, p, n)
                              IN IF a = {} /\ b = {} THEN 0 ELSE ((FoldSet(LAMBDA i, acc : acc + m[i], 0, a) + FoldSet(LAMBDA i, acc : acc + m[i], 0, b)) * 10) \div (Cardinality(a) + Cardinality(b))
               ELSE 0
  IN  MeanAt(m, beats) - (half * 6) \div 10 - (third * 4) \div 10
Quotient(a, b) == IF a >= 0 THEN Min2(DivM(a, b), 10 * M) ELSE -Min2(DivM(-a, b), 10 * M)
AlignAt(v, m, p) == IF Len(v) < 16 \/ p < 3 \/ p > 512 THEN 0
                    ELSE Quotient(Max({ PhaseContrast(m, Len(v), p, ph) : ph \in 1..Min2(p, Len(v)) }), Max2(1, (Sum(v) * 10) \div Len(v)))
Period(fpm, b) == (2 * fpm * 100 + b) \div (2 * b)
\* fpm: hundredths of frames per minute
Aligns(v, m, fpm, b) == UNION { IF fpm * 100 < 3 * bb THEN {0} ELSE { AlignAt(v, m, Period(fpm, bb)) } : bb \in {b - EB, b, b + EB} }

EA == 3000
Family(b) == <<b, (3 * b) \div 2, (2 * b) \div 3, (4 * b) \div 3, (3 * b) \div 4>>
\* A(b): the set of possible alignments of tempo b
Triplet(o, cs, x, A(_)) ==
  IF ~o.family \/ TRUE \notin In(x[1], B(70), B(180)) THEN {x} ELSE
  LET raw == Family(x[1])
      may == { i \in 1..5 : TRUE \in In(raw[i], Max2(B(70), o.min), Min2(B(180), o.max)) /\ \E s \in Supports(cs, raw[i], o.tol) : s[2] >= 2 }
  IN IF Cardinality(may) < 2 THEN {x} ELSE
  LET sup == [i \in may |-> Supports(cs, raw[i], o.tol)]
      s1(i) == (CHOOSE s \in sup[i] : TRUE)[1]
      top == Max({ s1(i) : i \in may })
      alt == Max({ 0 } \cup { s1(i) : i \in may \ {1} })
      al == [i \in may \cup {1} |-> A(raw[i])]
      sc(i) == (CHOOSE a \in al[i] : TRUE) + Pct(DivM(s1(i), Max2(1, top)), 35)
      win == CHOOSE i \in may : \A j \in may : sc(i) > sc(j) \/ (sc(i) = sc(j) /\ i <= j)
      v(i) == CHOOSE a \in al[i] : TRUE
      torn == \/ FALSE \in In(x[1], B(70), B(180))
              \/ \E i \in may : Cardinality(sup[i]) > 1 \/ FALSE \in In(raw[i], Max2(B(70), o.min), Min2(B(180), o.max))
              \/ \E i \in may \cup {1} : Cardinality(al[i]) > 1
              \/ Near(alt, Pct(top, 45), 3)
              \/ \E j \in may \ {win} : sc(win) - sc(j) < EA
              \/ Near(v(win), v(1) + 400000, EA)
  IN  IF torn THEN { x } \cup { <<raw[i], s[1]>> : i \in may, s \in UNION { sup[k] : k \in may } }
      ELSE IF alt < Pct(top, 45) \/ win = 1 \/ v(win) < v(1) + 400000 THEN {x}
      ELSE { <<raw[win], s1(win)>> }

\* all possible results: <<tempo, score, runner-up at least, runner-up at most>>
Fuse(o, cs, A(_)) ==
  LET hs == [i \in DOMAIN cs[2] |-> Hyps(o, cs, cs[2][i][1])] IN
  UNION { LET finals == UNION { UNION { Triplet(o, cs, z, A) : z \in FoldUp(o, cs, y) } : y \in FoldDown(o, cs, h) }
          IN { <<f[1], f[2], SecondLo(hs, h[1]), SecondHi(hs, h[1])>> : f \in finals } : h \in Best(hs) }
\* confidence: lead over the runner-up, relative
LeadOk(r, c) == IF r[2] = 0 THEN c <= 2 ELSE /\ MulM(c, r[2]) <= Max2(0, r[2] - r[3]) + 4 * ES
                                            /\ MulM(c, r[2]) >= Max2(0, r[2] - r[4]) - 4 * ES
Agreement(cs, b, tol) == { s[2] : s \in Supports(cs, b, tol) }

-----------------------------------------------------------------------------
(* Validation of one spectrogram read at several hop sizes: es estimates        *)
(* [b, c, n]. Agreeing readings are averaged and gain a fifth of confidence;    *)
(* otherwise the most confident one is taken and loses a tenth.                 *)
Agreeing(es, d) == \A i \in DOMAIN es : Abs(es[i].b - es[1].b) < B(2) + d
Average(es) == [b |-> FoldLeft(LAMBDA a, x : a + x.b, 0, es) \div Len(es), c |-> Min2(M, Pct(FoldLeft(LAMBDA a, x : a + x.c, 0, es) \div Len(es), 120)), n |-> Len(es)]
Validated(es) ==
  IF Len(es) = 1 THEN {es[1]}
  ELSE (IF Agreeing(es, EB) THEN { Average(es) } ELSE {})
       \cup (IF Agreeing(es, -EB) THEN {} ELSE { [b |-> es[i].b, c |-> Pct(es[i].c, 90), n |-> 1] : i \in { i \in DOMAIN es : \A j \in DOMAIN es : es[j].c <= es[i].c + 1 } })
=============================================================================
