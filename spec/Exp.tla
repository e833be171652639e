--------------------------------- MODULE Exp ---------------------------------
EXTENDS Base
\* exp(-x) for x >= 0, in millionths
ExpNeg(x) ==
  IF x > 16000000 THEN 0
  ELSE LET t == x \div 64
           t2 == MulM(t, t)  t3 == MulM(t2, t)  t4 == MulM(t3, t)
           e == M - t + t2 \div 2 - t3 \div 6 + t4 \div 24
       IN  FoldLeft(LAMBDA a, k : MulM(a, a), e, <<1, 2, 3, 4, 5, 6>>)
=============================================================================
