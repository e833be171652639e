-------------------------------- MODULE Key --------------------------------
(* Key detection. A key is a number: 0..11 major, 12..23 minor, tonic k % 12. *)
(* Chroma material is the histogram H (pitch class 0..11 -> weight); scores    *)
(* are integers on the scale S.                                                *)
EXTENDS Base
S == 100000
Bind(F(_), x) == CHOOSE r \in { F(t) : t \in { TLCEval(x) } } : TRUE
Keys == 0..23
PC == 0..11
Tonic(k) == k % 12
IsMajor(k) == k < 12
Rot(k, n) == IF k < 12 THEN (k + n) % 12 ELSE 12 + ((k + n) % 12)

\* published tonal profiles, tonic first, in hundredths
KKMajor == <<635, 223, 348, 233, 438, 409, 252, 519, 239, 366, 229, 288>>
KKMinor == <<633, 268, 352, 538, 260, 353, 254, 475, 398, 269, 334, 317>>
TMajor == <<500, 200, 350, 200, 450, 400, 200, 450, 200, 350, 150, 400>>
TMinor == <<500, 200, 350, 500, 200, 350, 200, 450, 350, 200, 400, 350>>
Profile(set, major) == IF set = "kk" THEN (IF major THEN KKMajor ELSE KKMinor) ELSE (IF major THEN TMajor ELSE TMinor)
Entry(set, k, p) == Profile(set, IsMajor(k))[((p - Tonic(k)) % 12) + 1]

\* the norm of a profile, in thousandths of its unit
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Norm(prof) == LET q == Sum([i \in 1..12 |-> prof[i] * prof[i]]) IN Isqrt(q * 500, 0, 46000)      \* * sqrt(500)

\* what the sound says for a key: correlation of the histogram with its profile
Match(H, set, tm) ==
  IF set = "own" THEN [k \in Keys |-> Sum([p \in 1..12 |-> H[p - 1] * tm[k + 1][p]])]
  ELSE [k \in Keys |-> Sum([p \in 1..12 |-> H[p - 1] * Entry(set, k, p - 1)])]
Tops(R) == << Max({R[k] : k \in 0..11}), Max({R[k] : k \in 12..23}) >>
ModeTop(R, k) == IF IsMajor(k) THEN Tops(R)[1] ELSE Tops(R)[2]

\* both modes are put on a common footing when both match at all
Leveled(R) == Bind(LAMBDA t :
  IF t[1] > 0 /\ t[2] > 0 THEN [k \in Keys |-> DivM(R[k], IF IsMajor(k) THEN t[1] ELSE t[2]) \div 10]
  ELSE [k \in Keys |-> R[k] * S], Tops(R))

\* neighbours on the circle of fifths of a mode's best key gain
Fifths(a, b) == LET d == ((7 * (a - b)) % 12) IN Min2(d, 12 - d)
Gain(d) == IF d = 0 THEN 20 ELSE IF d = 1 THEN 10 ELSE 0
Close(R, k, t) == R[k] >= t - t \div 50000
Heads(R, major) == Bind(LAMBDA t : { k \in (IF major THEN 0..11 ELSE 12..23) : Close(R, k, t) }, Tops(R)[IF major THEN 1 ELSE 2])
Lifted(L, k, ref) == L[k] + (IF L[ref] > 0 THEN (L[ref] \div 100) * Gain(Fifths(Tonic(k), Tonic(ref))) ELSE 0)

\* the histogram of weighted frames; frames without positive weight do not count
Hist(fr, w) ==
  LET on == { i \in DOMAIN fr : w = <<>> \/ w[i] > 0 }
      g(i) == IF w = <<>> THEN 1 ELSE w[i]
  IN [p \in PC |-> FoldSet(LAMBDA i, a : a + g(i) * fr[i][p + 1], 0, on)]
WSum(fr, w) == IF w = <<>> THEN Len(fr) ELSE FoldSet(LAMBDA i, a : a + Max2(w[i], 0), 0, DOMAIN w)

\* comparison of the best major and best minor match (cosine): set of modes that may win
Cosine(R, set, major) == IF set = "own" THEN Tops(R)[IF major THEN 1 ELSE 2] * 1000
                         ELSE DivM(Tops(R)[IF major THEN 1 ELSE 2], Norm(Profile(set, major)))
WinnersOf(R, set) == LET a == Cosine(R, set, TRUE)  b == Cosine(R, set, FALSE)  t == 2 + Max2(a, b) \div 20000
  IN IF Tops(R)[1] > 0 /\ Tops(R)[2] > 0
     THEN (IF a + t >= b THEN Heads(R, TRUE) ELSE {}) \cup (IF b + t >= a THEN Heads(R, FALSE) ELSE {})
     ELSE IF Tops(R)[1] > 0 THEN Heads(R, TRUE) ELSE IF Tops(R)[2] > 0 THEN Heads(R, FALSE) ELSE Keys

Winners(R0, set) == Bind(LAMBDA R : WinnersOf(R, set), R0)

\* mode preference from the third, sixth and seventh degree; margin in percent.
\* TRUE/FALSE/"either" when an exact tie is decided by rounding
Over(a, b, m) == 100 * a > b * (100 + m)
Tie(a, b, m) == m > 0 /\ a > 0 /\ b > 0 /\ 100 * a = b * (100 + m)
Degree(H, t, lo, hi, m, g) ==
  LET a == H[(t + lo) % 12]  b == H[(t + hi) % 12] IN
  IF Over(a, b, m) THEN <<g * (a - b), 0>> ELSE IF Over(b, a, m) THEN <<0, g * (b - a)>> ELSE <<0, 0>>
Ambiguous(H, t, m) == \E d \in { <<3, 4>>, <<8, 9>>, <<10, 11>> } :
                        LET a == H[(t + d[1]) % 12]  b == H[(t + d[2]) % 12] IN Tie(a, b, m) \/ Tie(b, a, m)
Preference(H, t, m) ==
  LET x == Degree(H, t, 3, 4, m, 2)  y == Degree(H, t, 8, 9, m, 1)  z == Degree(H, t, 10, 11, m, 1)
      mi == x[1] + y[1] + z[1]  ma == x[2] + y[2] + z[2]
  IN IF 200 * mi = ma * (200 + m) \/ 200 * ma = mi * (200 + m) THEN (IF mi + ma = 0 THEN "none" ELSE "either")
     ELSE IF 200 * mi > ma * (200 + m) THEN "minor" ELSE IF 200 * ma > mi * (200 + m) THEN "major" ELSE "none"
Parallel(k) == IF k < 12 THEN k + 12 ELSE k - 12
\* which keys may be chosen when best leads the table sc, flip in percent
Flips(H, sc, best, m, flip) ==
  LET pref == Preference(H, Tonic(best), m)
      want == IF IsMajor(best) THEN "minor" ELSE "major"
      may == pref \in {want, "either"} \/ Ambiguous(H, Tonic(best), m)
      must == pref = want /\ ~Ambiguous(H, Tonic(best), m)
      lim == (sc[best] \div 100) * flip
      near == Abs(sc[Parallel(best)] - lim) <= 300 + Abs(lim) \div 50000
  IN IF flip = 0 \/ sc[best] <= 0 \/ ~may THEN {best}
     ELSE IF near THEN {best, Parallel(best)}
     ELSE IF sc[Parallel(best)] < lim THEN {best}
     ELSE IF must THEN {Parallel(best)} ELSE {best, Parallel(best)}
Bonus(H, k, ws, lt) == LET t == Sum([p \in 1..12 |-> H[p - 1]]) IN
  IF IsMajor(k) \/ t = 0 THEN 0 ELSE (ws * lt * 100 * (H[(Tonic(k) + 11) % 12] - H[(Tonic(k) + 10) % 12])) \div t

\* distinctness of the head of a score table, in millionths (scores by rank)
Mean(s) == LET n == Len(s) IN Sum([i \in 1..n |-> s[i] \div n]) + Sum([i \in 1..n |-> s[i] % n]) \div n
Clarity(s) == LET hi == SeqMax(s)  lo == SeqMin(s) IN IF Len(s) < 2 \/ hi = lo \/ s[1] <= Mean(s) THEN 0 ELSE Min2(M, DivM(s[1] - Mean(s), hi - lo))
\* lead of one score over the best other, in millionths
Lead(best, other) == IF best <= 0 THEN 0 ELSE IF other >= best THEN 0 ELSE IF other <= 0 /\ best - other >= best THEN M ELSE DivM(best - other, best)

\* segmentation: starts of the windows of a given length and hop that fit into n frames
Starts(n, len, hop) == IF len = 0 \/ len > n THEN {} ELSE { i * hop : i \in 0..((n - len) \div hop) }
\* keys that occur most often in a sequence of keys
CountOf(ks, k) == Cardinality({ i \in DOMAIN ks : ks[i] = k })
Commonest(ks) == { k \in Range(ks) : \A j \in Range(ks) : CountOf(ks, j) <= CountOf(ks, k) }
=============================================================================
