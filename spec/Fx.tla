--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Real numbers as fixed-point integers scaled by 10^24 (six limbs), on    *)
(* top of BigNum.  An IEEE double sent by the harness is the exact value   *)
(* of the double rounded to 10^-24.  Non-finite values keep the same shape:*)
(* <<2>> is NaN, <<3>> is +inf and <<4>> is -inf.                          *)
(***************************************************************************)
EXTENDS BigNum

FL == 6                                   \* limbs after the point
FNaN == <<2>>
FPInf == <<3>>
FNInf == <<4>>
IsNaN(x) == x[1] = 2
IsFin(x) == x[1] \in {-1, 0, 1}

F(n)  == BShift(BInt(n), FL)              \* integer -> fixed point
F0 == <<0>>
F1 == F(1)
F2 == F(2)
FOfB(b) == BShift(b, FL)                  \* big integer -> fixed point
FFloorB(x) == BShift(x, -FL)              \* floor, as big integer
FFloor(x) == BToInt(BShift(x, -FL))       \* floor, as TLC integer

FAdd(x, y) == BAdd(x, y)
FSub(x, y) == BSub(x, y)
FNeg(x) == BNeg(x)
FAbs(x) == BAbs(x)
FMul(x, y) == BShift(BMul(x, y), -FL)
FDiv(x, y) == BDiv(BShift(x, FL), y)
FMulI(x, n) == BMul(x, BInt(n))           \* exact
FDivI(x, n) == BDiv(x, BInt(n))
FQ(p, q) == BDiv(F(p), BInt(q))           \* rational p/q
FSqrt(x) == BSqrt(BShift(x, FL))
FSq(x) == FMul(x, x)
FLe(x, y) == BLe(x, y)
FLt(x, y) == BLt(x, y)
FMax(x, y) == IF BLe(x, y) THEN y ELSE x
FMin(x, y) == IF BLe(x, y) THEN x ELSE y
FMod(x, y) == BMod(x, y)

RECURSIVE FPow(_, _)                      \* integer power >= 0
FPow(x, n) == IF n = 0 THEN F1
              ELSE IF n % 2 = 0 THEN LET h == FPow(x, n \div 2) IN FMul(h, h)
              ELSE FMul(x, FPow(x, n-1))
FPowZ(x, n) == IF n >= 0 THEN FPow(x, n) ELSE FDiv(F1, FPow(x, -n))

\* 10^(-k), 0 <= k <= 24
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN BInt(1) ELSE BMul(BInt(10), Pow10(k-1))
Eps(k) == Pow10(24-k)

\* |x - y| <= tol, and the same relative to a scale  tol * max(1, |s|)
Near(x, y, tol) == IsFin(x) /\ BLe(BAbs(BSub(x, y)), tol)
NearRel(x, y, tol, s) ==
    IsFin(x) /\ BLe(BAbs(BSub(x, y)), FMul(tol, FMax(F1, FAbs(s))))
\* relative to the larger of the operands only (for quantities that can be tiny)
NearR(x, y, tol) == NearRel(x, y, tol, y)

\* ---- elementary functions ---------------------------------------------
\* pi to 24 decimals: 3.141592653589793238462643
FPi == <<1, 2643, 3846, 7932, 3589, 9265, 1415, 3>>
FTwoPi == FMulI(FPi, 2)
FHalfPi == FDivI(FPi, 2)
FDeg(x) == FDivI(FMul(x, FPi), 180)       \* degrees -> radians
FToDeg(x) == FDiv(FMulI(x, 180), FPi)

RECURSIVE SinTerm(_, _, _, _)
SinTerm(term, x2, k, acc) ==
    IF k > 40 \/ term[1] = 0 THEN acc
    ELSE LET t == FNeg(FDivI(FMul(term, x2), k*(k+1)))
             u == IF t = <<-1, 1>> THEN F0 ELSE t      \* floor(-tiny) stops here
         IN SinTerm(u, x2, k+2, FAdd(acc, u))
\* Taylor series, |x| <= pi/4 or so
SinT(x) == SinTerm(x, FSq(x), 2, x)
CosT(x) == SinTerm(F1, FSq(x), 1, F1)

\* quadrant reduction
SinCosQ(q, s, c) == CASE q = 0 -> <<s, c>>
                      [] q = 1 -> <<c, FNeg(s)>>
                      [] q = 2 -> <<FNeg(s), FNeg(c)>>
                      [] OTHER -> <<FNeg(c), s>>
\* <<sin x, cos x>>, x in radians.  pi is known to 24 digits, so keep |x| < 10^6
FSinCos(x) == LET k == FFloorB(FAdd(FDiv(x, FHalfPi), FQ(1, 2)))
                  y == FSub(x, BMul(k, FHalfPi))
              IN SinCosQ(BToInt(BMod(k, BInt(4))), SinT(y), CosT(y))
\* <<sin x, cos x>>, x in degrees: the reduction is exact
FSinCosD(x) == LET k == FFloorB(FAdd(FDivI(x, 90), FQ(1, 2)))
                   y == FDeg(FSub(x, BMul(k, F(90))))
               IN SinCosQ(BToInt(BMod(k, BInt(4))), SinT(y), CosT(y))
FSin(x) == FSinCos(x)[1]
FCos(x) == FSinCos(x)[2]
FSinD(x) == FSinCosD(x)[1]
FCosD(x) == FSinCosD(x)[2]

\* arctangent of x >= 0 by argument halving then series
RECURSIVE AtanHalve(_, _)
AtanHalve(x, n) == IF n = 0 THEN x
                   ELSE AtanHalve(FDiv(x, FAdd(F1, FSqrt(FAdd(F1, FSq(x))))), n-1)
RECURSIVE AtanSer(_, _, _, _)
AtanSer(pw, x2, k, acc) ==
    IF k > 41 THEN acc
    ELSE LET p == FNeg(FMul(pw, x2)) IN
         AtanSer(p, x2, k+2, FAdd(acc, FDivI(p, k+2)))
FAtanPos(x) == LET y == AtanHalve(x, 4) IN FMulI(AtanSer(y, FSq(y), 1, y), 16)
FAtan(x) == IF x[1] < 0 THEN FNeg(FAtanPos(FNeg(x))) ELSE FAtanPos(x)
\* full-circle arctangent, radians in (-pi, pi]
FAtan2(y, x) ==
    IF BLe(FAbs(y), FAbs(x)) /\ x[1] # 0
    THEN LET a == FAtan(FDiv(y, x)) IN
         IF x[1] > 0 THEN a ELSE IF y[1] >= 0 THEN FAdd(a, FPi) ELSE FSub(a, FPi)
    ELSE IF y[1] = 0 THEN F0
    ELSE LET a == FAtan(FDiv(x, y)) IN
         IF y[1] > 0 THEN FSub(FHalfPi, a) ELSE FSub(FNeg(FHalfPi), a)
FAtan2D(y, x) == FToDeg(FAtan2(y, x))
\* arccos via atan2
FAcosD(c) == FAtan2D(FSqrt(FMax(F0, FSub(F1, FSq(c)))), c)

RECURSIVE ExpTerm(_, _, _, _)
ExpTerm(term, x, k, acc) ==
    IF k > 60 THEN acc
    ELSE LET t == FDivI(FMul(term, x), k) IN ExpTerm(t, x, k+1, FAdd(acc, t))
RECURSIVE FExp(_)
FExp(x) == IF BLe(FAbs(x), F1) THEN ExpTerm(F1, x, 1, F1) ELSE FSq(FExp(FDivI(x, 2)))

\* ---- vectors -------------------------------------------------------------
RECURSIVE FSumRec(_, _, _)
FSumRec(s, i, acc) == IF i > Len(s) THEN acc ELSE FSumRec(s, i+1, FAdd(acc, s[i]))
FSum(s) == FSumRec(s, 1, F0)
RECURSIVE FDotRec(_, _, _, _)
FDotRec(a, b, i, acc) ==
    IF i > Len(a) THEN acc ELSE FDotRec(a, b, i+1, BAdd(acc, BMul(a[i], b[i])))
FDot(a, b) == BShift(FDotRec(a, b, 1, BZero), -FL)
FNorm(a) == FSqrt(FDot(a, a))
FCross(a, b) == << FSub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                   FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                   FSub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
FScale(a, s) == [i \in 1..Len(a) |-> FMul(a[i], s)]
FVAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
FVSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
FUnit(a) == LET n == FNorm(a) IN [i \in 1..Len(a) |-> FDiv(a[i], n)]
RECURSIVE FMaxAbsRec(_, _, _)
FMaxAbsRec(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE FMaxAbsRec(s, i+1, IF IsFin(s[i]) THEN FMax(acc, FAbs(s[i])) ELSE acc)
FMaxAbs(s) == FMaxAbsRec(s, 1, F0)
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
VNearRel(a, b, tol, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearRel(a[i], b[i], tol, s)
=============================================================================
