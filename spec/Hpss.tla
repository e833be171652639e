-------------------------------- MODULE Hpss --------------------------------
(* Harmonic/percussive separation of a magnitude spectrogram x[frame][bin]      *)
(* (ten-thousandths). One refinement step replaces the harmonic part by its     *)
(* median over time and the percussive part by its median over frequency, then  *)
(* redistributes the original in proportion.                                    *)
EXTENDS Base

Median(w) == LET s == SortSeq(w, <)  n == Len(w) IN
             IF n % 2 = 0 THEN (s[n \div 2] + s[n \div 2 + 1]) \div 2 ELSE s[n \div 2 + 1]
Window(n, i, g) == Max2(1, i - g)..Min2(n, i + g)
Pick(f(_), S) == [k \in 1..Cardinality(S) |-> f(Min(S) + k - 1)]
MedTime(x, t, b, g) == LET S == Window(Len(x), t, g) IN Median(Pick(LAMBDA u : x[u][b], S))
MedFreq(x, t, b, g) == LET S == Window(Len(x[1]), b, g) IN Median(Pick(LAMBDA u : x[t][u], S))

Over(x, F(_, _)) == TLCEval([t \in DOMAIN x |-> [b \in DOMAIN x[t] |-> F(t, b)]])
\* One step on <<harmonic, percussive, doubt>>; doubt is set once a share cannot be
\* resolved on this scale (both medians tiny but not zero).
Shares(x, h, p, doubt) ==
  LET share(t, b, v) == LET tot == h[t][b] + p[t][b] IN
                        IF tot = 0 THEN x[t][b] \div 2 ELSE (x[t][b] * v + tot \div 2) \div tot
  IN << Over(x, LAMBDA t, b : share(t, b, h[t][b])),
        Over(x, LAMBDA t, b : share(t, b, p[t][b])),
        doubt \/ \E t \in DOMAIN x : \E b \in DOMAIN x[t] : h[t][b] + p[t][b] \in 0..300 /\ x[t][b] > 0 >>
\* (the medians are bound as elements of singletons so that TLC evaluates them once)
Step(x, s, g) ==
  CHOOSE r \in { Shares(x, h, p, s[3]) : h \in { Over(x, LAMBDA t, b : MedTime(s[1], t, b, g)) },
                                         p \in { Over(x, LAMBDA t, b : MedFreq(s[2], t, b, g)) } } : TRUE
Refine(x, s, g, k) == FoldLeft(LAMBDA acc, i : IF acc[3] THEN acc ELSE Step(x, acc, g), s, [i \in 1..k |-> i])
Decompose(x, g, k) == Refine(x, <<x, x, FALSE>>, g, k)

\* promises
Shape(x, y) == Len(y) = Len(x) /\ \A t \in DOMAIN x : Len(y[t]) = Len(x[t])
Conserved(x, h, p, tol) == \A t \in DOMAIN x : \A b \in DOMAIN x[t] : Near(h[t][b] + p[t][b], x[t][b], tol)
Part(x, h, tol) == \A t \in DOMAIN x : \A b \in DOMAIN x[t] : h[t][b] # NaN /\ h[t][b] >= 0 /\ h[t][b] <= x[t][b] + tol
All(x, y, tol) == \A t \in DOMAIN x : \A b \in DOMAIN x[t] : Near(x[t][b], y[t][b], tol)
=============================================================================
