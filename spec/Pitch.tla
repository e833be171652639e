-------------------------------- MODULE Pitch --------------------------------
(* Equal temperament, A4 = 440 Hz = semitone 57, pitch class = semitone mod 12  *)
(* (C = 0). Frequencies are in ten-thousandths of a hertz, positions in         *)
(* millionths of a semitone.                                                    *)
EXTENDS Base
\* C4 .. C5
Octave == <<2616256, 2771826, 2936648, 3111270, 3296276, 3492282, 3699944, 3919954, 4153047, 4400000, 4661638, 4938833, 5232511>>
Fold(f) == FoldLeft(LAMBDA a, i : IF a[1] >= Octave[13] THEN <<a[1] \div 2, a[2] + 1>> ELSE IF a[1] < Octave[1] THEN <<a[1] * 2, a[2] - 1>> ELSE a,
                    <<f, 0>>, <<1, 2, 3, 4, 5, 6, 7>>)
Step(g) == CHOOSE j \in 1..12 : Octave[j] <= g /\ (g < Octave[j + 1] \/ j = 12)
Frac(g, j) == LET x == DivM(g - Octave[j], Octave[j + 1] - Octave[j]) IN x + (MulM(MulM(x, M - x), 28870))
Pos(f) == LET a == TLCEval(Fold(f))  j == TLCEval(Step(a[1])) IN (48 + 12 * a[2] + j - 1) * M + Frac(a[1], j)

Turn == 12 * M
PosClass(p) == (p % Turn)
Round(p) == ((p + M \div 2) \div M)
Class(p) == Round(p) % 12
\* too close to the middle between two notes to call
Torn(p) == Near(p % M, M \div 2, 400)
Distance(p, c) == LET d == Abs(PosClass(p) - c * M) IN Min2(d, Turn - d)
=============================================================================
