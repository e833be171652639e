-------------------------------- MODULE Trig --------------------------------
EXTENDS Base
\* cosine of x millionths of a radian, 0 <= x <= pi/2, in millionths
CosQ(x) == LET x2 == MulM(x, x) x4 == MulM(x2, x2) x6 == MulM(x4, x2) x8 == MulM(x4, x4) x10 == MulM(x8, x2)
           IN  M - x2 \div 2 + x4 \div 24 - x6 \div 720 + x8 \div 40320 - x10 \div 3628800
\* 2 pi h / q in millionths of a radian, q <= 40000
Angle(h, q) == h * (6283185 \div q) + (h * (6283185 % q)) \div q
\* cos(2 pi p / q) in millionths, q <= 40000
CosTurn(p, q) == LET r == p % q  h == Min2(r, q - r)          \* h/q in 0..1/2
                 IN  IF 4 * h <= q THEN CosQ(Angle(h, q)) ELSE -CosQ(3141593 - Angle(h, q))
SinTurn(p, q) == CosTurn(4 * p - q, 4 * q)
=============================================================================
