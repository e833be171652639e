-------------------------------- MODULE Base --------------------------------
(* Arithmetic shared by all modules. Real quantities of the implementation are *)
(* represented by integers on a fixed scale (millionths unless said            *)
(* otherwise); a value that is not a finite number is represented by NaN.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NaN == 2147483647
Fin(x) == x # NaN
FinSeq(s) == \A i \in DOMAIN s : s[i] # NaN
M == 1000000                               \* one, on the millionth scale

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b, t) == Abs(a - b) <= t
Ceil(a, b) == -((-a) \div b)

\* a*b/10^6 for non-negative a, b without leaving 32-bit integers
MulM(a, b) == LET a1 == a \div 1000  a0 == a % 1000
                  b1 == b \div 1000  b0 == b % 1000
              IN  a1 * b1 + (a1 * b0 + a0 * b1) \div 1000 + (a0 * b0) \div M

\* a/b in millionths, for 0 <= a, 0 < b (to nine digits when b is large)
RECURSIVE DivM(_, _)
DivM(a, b) == IF b >= 200000000 THEN DivM(a \div 16, b \div 16) ELSE
              LET r == FoldLeft(LAMBDA s, x : <<s[1] * 10 + (s[2] * 10) \div b, (s[2] * 10) % b>>,
                                <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6>>) IN r[1]

\* the set of names of the conditions that do not hold: <<name, condition>> pairs
Failed(checks) == { checks[i][1] : i \in { j \in DOMAIN checks : ~checks[j][2] } }

Sum(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
SeqMax(s) == FoldSeq(LAMBDA x, acc : Max2(x, acc), s[1], s)
SeqMin(s) == FoldSeq(LAMBDA x, acc : Min2(x, acc), s[1], s)
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Descending(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
Unit(x) == x # NaN /\ x >= 0 /\ x <= M
=============================================================================
