---------------------------- MODULE MC_Harmonics ----------------------------
(* Laws of the harmonics on a grid of colatitudes (poles included) for all    *)
(* degrees and orders up to N.                                                *)
EXTENDS Harmonics, IOUtils
Big == IOEnv.HM_BIG = "1"
N == IF Big THEN 9 ELSE 5
ThStep == IF Big THEN 5 ELSE 15
PhStep == IF Big THEN 36 ELSE 72
VARIABLES th, ph
Init == th = 0 /\ ph \in {-180, -108, -36, 0, 45, 144}
Next == th < 180 /\ th' = th + ThStep /\ ph' = ph
SC == FSinCosD(F(th))
T == TLCEval(PTable(SC[1], SC[2], N+1))
Q == TLCEval(QTable(SC[1], SC[2], N))

RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN BInt(1) ELSE BMul(BInt(k), Fact(k-1))
Binom(n, k) == BDiv(Fact(n), BMul(Fact(k), Fact(n-k)))
\* d^m/dx^m of the Legendre polynomial P_n at x, explicit sum
RECURSIVE LegSum(_, _, _, _)
LegSum(n, m, x, k) ==
    IF n - 2*k - m < 0 THEN F0
    ELSE LET co == BMul(Binom(n, k), Binom(2*n - 2*k, n))
             fall == BDiv(Fact(n - 2*k), Fact(n - 2*k - m))
             term == FMul(FOfB(BMul(co, fall)), FPow(x, n - 2*k - m))
         IN FAdd(IF k % 2 = 0 THEN term ELSE FNeg(term), LegSum(n, m, x, k+1))
Leg(n, m, x) == BDiv(LegSum(n, m, x, 0), BInt(2^n))
Norm(n, m) == IF m = 0 THEN F1
              ELSE BDiv(FSqrt(FMulI(FOfB(BMul(Fact(n-m), Fact(n+m))), 2)), Fact(n+m))
Explicit(n, m) == FMul(Norm(n, m), FMul(FPow(SC[1], m), Leg(n, m, SC[2])))

NM == {<<n, m>> \in (0..N) \X (0..N) : m <= n}
ExplicitInv == \A p \in NM : Near(TabAt(T, p[1], p[2]), Explicit(p[1], p[2]), Eps(15))
RECURSIVE SqSum(_, _)
SqSum(n, m) == IF m > n THEN F0 ELSE FAdd(FSq(TabAt(T, n, m)), SqSum(n, m+1))
AdditionInv == \A n \in 0..N : Near(SqSum(n, 0), F1, Eps(16))
QInv == \A p \in NM : p[2] > 0 =>
        Near(FMul(TabAt(Q, p[1], p[2]), SC[1]), TabAt(T, p[1], p[2]), Eps(16))
SC2 == FSinCosD(F(180 - th))
T2 == TLCEval(PTable(SC2[1], SC2[2], N+1))
ParityInv == \A p \in NM : Near(TabAt(T2, p[1], p[2]),
        IF (p[1] + p[2]) % 2 = 0 THEN TabAt(T, p[1], p[2]) ELSE FNeg(TabAt(T, p[1], p[2])), Eps(16))

\* B = -grad V by central differences (h in degrees / relative radius)
A == F(6371)
R0 == F(6800)
Hd == FQ(1, 100000)                     \* degrees
Hr == FQ(1, 100)                        \* km
Pot(src, w, r, t, p) == UnitPot(PointTables(A, r, t, p, N), A, src, w)
WSet == {<<n, m, c>> \in (1..Min2(N, 5)) \X (0..5) \X {0, 1} : m <= n /\ (m = 0 => c = 0)}
GradAt(src, w) ==
    LET t == F(th) p == F(ph)
        dr == FDiv(FSub(Pot(src, w, FAdd(R0, Hr), t, p), Pot(src, w, FSub(R0, Hr), t, p)),
                   FMulI(Hr, 2))
        dt == FDiv(FSub(Pot(src, w, R0, FAdd(t, Hd), p), Pot(src, w, R0, FSub(t, Hd), p)),
                   FMul(FMulI(FDeg(Hd), 2), R0))
        dp == FDiv(FSub(Pot(src, w, R0, t, FAdd(p, Hd)), Pot(src, w, R0, t, FSub(p, Hd))),
                   FMul(FMul(FMulI(FDeg(Hd), 2), R0), SC[1]))
    IN <<FNeg(dr), FNeg(dt), FNeg(dp)>>
GradInv == th \in {15, 30, 45, 60, 75, 90, 120, 135, 165} =>
    \A w \in WSet : \A src \in {"internal", "external"} :
       LET u == UnitField(PointTables(A, R0, F(th), F(ph), N), src, w) IN
       VNear(u, GradAt(src, w), FQ(1, 1000000000))
\* at the poles: the limit along the meridian
NearPole == IF th = 0 THEN FQ(1, 1000000000) ELSE FSub(F(180), FQ(1, 1000000000))
PoleInv == th \in {0, 180} =>
    \A w \in WSet : \A src \in {"internal", "external"} :
       VNear(UnitField(PointTables(A, R0, F(th), F(ph), N), src, w),
             UnitField(PointTables(A, R0, NearPole, F(ph), N), src, w), FQ(1, 100000000))
WindowInv == \A a \in 1..4 : \A b \in a..6 : \A m \in 0..b :
    /\ Len(Window(a, b, m)) = WindowDim(a, b, m)
    /\ InferNmax(a, m, WindowDim(a, b, m)) = b
    /\ InferNmax(a, -1, WindowDim(a, b, b)) = b
    /\ \A i \in 1..(Len(Window(a, b, m)) - 1) :
         LET x == Window(a, b, m)[i] y == Window(a, b, m)[i+1] IN
         x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
ASSUME WindowInv
=============================================================================
