------------------------------- MODULE Complex -------------------------------
(* Complex numbers <<re, im>> over the fixed-point reals of Fx.               *)
EXTENDS Fx
C(x, y) == <<x, y>>
CR(x) == <<x, F0>>
C0 == <<F0, F0>>
C1 == <<F1, F0>>
CAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
CSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
CNeg(a) == <<FNeg(a[1]), FNeg(a[2])>>
CMul(a, b) == << FSub(FMul(a[1], b[1]), FMul(a[2], b[2])),
                 FAdd(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
CScale(a, x) == <<FMul(a[1], x), FMul(a[2], x)>>
CMulI(a, n) == <<FMulI(a[1], n), FMulI(a[2], n)>>
CDivI(a, n) == <<FDivI(a[1], n), FDivI(a[2], n)>>
CNorm2(a) == FAdd(FSq(a[1]), FSq(a[2]))
CMax(a) == FMax(FAbs(a[1]), FAbs(a[2]))
\* modulus; rescaled to about unit size to keep the digits of small numbers
CAbs(a) == LET s == CMax(a) IN IF s[1] = 0 THEN F0
           ELSE FMul(s, FSqrt(CNorm2(<<FDiv(a[1], s), FDiv(a[2], s)>>)))
\* quotient; the divisor is rescaled to about unit size to keep its digits
CDiv(a, b) == LET s == FMax(FAbs(b[1]), FAbs(b[2]))
                  u == <<FDiv(b[1], s), FDiv(b[2], s)>>
                  d == CNorm2(u)
              IN << FDiv(FDiv(FAdd(FMul(a[1], u[1]), FMul(a[2], u[2])), d), s),
                    FDiv(FDiv(FSub(FMul(a[2], u[1]), FMul(a[1], u[2])), d), s) >>
\* principal square root, likewise
CSqrt1(a) == LET r == CAbs(a)
                 p == FSqrt(FMax(F0, FDivI(FAdd(r, a[1]), 2)))
                 q == FSqrt(FMax(F0, FDivI(FSub(r, a[1]), 2)))
             IN <<p, IF a[2][1] < 0 THEN FNeg(q) ELSE q>>
CSqrt(a) == LET s == CMax(a) IN IF s[1] = 0 THEN C0
            ELSE CScale(CSqrt1(<<FDiv(a[1], s), FDiv(a[2], s)>>), FSqrt(s))
\* exponential; zero once below the resolution
CExp(a) == IF FLt(a[1], F(-60)) THEN C0
           ELSE LET m == FExp(a[1]) sc == FSinCos(a[2]) IN <<FMul(m, sc[2]), FMul(m, sc[1])>>
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN C1 ELSE IF n % 2 = 0 THEN LET h == CPow(a, n \div 2) IN CMul(h, h)
              ELSE CMul(a, CPow(a, n-1))

\* natural logarithm of x > 0 near one (a few square roots, then the artanh series)
RECURSIVE RootN(_, _)
RootN(x, n) == IF n = 0 THEN x ELSE RootN(FSqrt(x), n-1)
RECURSIVE ArSer(_, _, _, _)
ArSer(pw, y2, k, acc) == IF k > 31 \/ pw[1] = 0 THEN acc
    ELSE LET p == FMul(pw, y2) IN ArSer(p, y2, k+2, FAdd(acc, FDivI(p, k+2)))
FLn(x) == LET z == RootN(x, 4) y == FDiv(FSub(z, F1), FAdd(z, F1)) IN
          FMulI(ArSer(y, FSq(y), 1, y), 32)
=============================================================================
