------------------------------ MODULE Harmonics ------------------------------
(***************************************************************************)
(* Schmidt semi-normalised associated Legendre functions (no Condon-       *)
(* Shortley phase), solid spherical harmonics and the magnetic field       *)
(* B = -grad V of internal and external potentials.  MC_Harmonics checks   *)
(* these definitions against an explicit polynomial formula and against    *)
(* finite differences of the potential.                                    *)
(***************************************************************************)
EXTENDS Fx, TLC

SqrtMax == 700
SqrtTab == [k \in 0..SqrtMax |-> FSqrt(F(k))]
SqrtI(k) == IF k <= SqrtMax THEN SqrtTab[k] ELSE FSqrt(F(k))

\* columns: Col(m, start, c, N)[n-m+1] = f_n^m for n = m..N where f_m^m = start
RECURSIVE ColRec(_, _, _, _, _)
ColRec(m, c, N, n, acc) ==
    IF n > N THEN acc
    ELSE ColRec(m, c, N, n+1, Append(acc,
       IF n = m+1 THEN FMul(FMul(SqrtI(2*m+1), c), acc[1])
       ELSE FDiv(FSub(FMulI(FMul(c, acc[n-m]), 2*n-1),
                      FMul(SqrtI((n-1)*(n-1) - m*m), acc[n-m-1])),
                 SqrtI(n*n - m*m))))
Col(m, start, c, N) == ColRec(m, c, N, m+1, <<start>>)

\* sectoral starts P_m^m for m = 0..N, and the same divided by sin(theta) (m >= 1)
RECURSIVE SectRec(_, _, _, _)
SectRec(s, N, m, acc) ==
    IF m > N THEN acc
    ELSE SectRec(s, N, m+1, Append(acc,
        IF m = 1 THEN s
        ELSE FMul(FMul(s, acc[m]), FDiv(SqrtI(2*m-1), SqrtI(2*m)))))
Sect(s, N) == SectRec(s, N, 1, <<F1>>)
RECURSIVE SectQRec(_, _, _, _)
SectQRec(s, N, m, acc) ==
    IF m > N THEN acc
    ELSE SectQRec(s, N, m+1, Append(acc,
        IF m = 1 THEN F1
        ELSE FMul(FMul(s, acc[m]), FDiv(SqrtI(2*m-1), SqrtI(2*m)))))
SectQ(s, N) == SectQRec(s, N, 1, <<F0>>)

RECURSIVE TabRec(_, _, _, _, _)
TabRec(st, c, N, m, acc) ==
    IF m > N THEN acc ELSE TabRec(st, c, N, m+1, Append(acc, Col(m, st[m+1], c, N)))
\* T[m+1][n-m+1]
PTable(s, c, N) == TabRec(Sect(s, N), c, N, 0, <<>>)
QTable(s, c, N) == TabRec(SectQ(s, N), c, N, 0, <<>>)
TabAt(T, n, m) == IF m > n THEN F0 ELSE T[m+1][n-m+1]

\* d P_n^m / d theta from the table
DP(T, n, m) ==
    IF n = 0 THEN F0
    ELSE IF m = 0 THEN FNeg(FMul(FDiv(SqrtI(n*(n+1)), SqrtI(2)), TabAt(T, n, 1)))
    ELSE IF m = 1 THEN FDivI(FSub(FMul(SqrtI(2*n*(n+1)), TabAt(T, n, 0)),
                                  FMul(SqrtI((n+2)*(n-1)), TabAt(T, n, 2))), 2)
    ELSE FDivI(FSub(FMul(SqrtI((n+m)*(n-m+1)), TabAt(T, n, m-1)),
                    FMul(SqrtI((n+m+1)*(n-m)), TabAt(T, n, m+1))), 2)

\* ---- coefficient order --------------------------------------------------
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE WindowRec(_, _, _, _, _)
WindowRec(n, m, nmax, mmax, acc) ==
    IF n > nmax THEN acc
    ELSE IF m > Min2(n, mmax) THEN WindowRec(n+1, 0, nmax, mmax, acc)
    ELSE WindowRec(n, m+1, nmax, mmax,
           IF m = 0 THEN Append(acc, <<n, 0, 0>>)
           ELSE Append(Append(acc, <<n, m, 0>>), <<n, m, 1>>))
\* sequence of <<n, m, 0 = g / 1 = h>>
Window(nmin, nmax, mmax) == WindowRec(nmin, 0, nmax, mmax, <<>>)
RECURSIVE WindowDimRec(_, _, _)
WindowDimRec(n, nmax, mmax) ==
    IF n > nmax THEN 0 ELSE 2*Min2(n, mmax) + 1 + WindowDimRec(n+1, nmax, mmax)
WindowDim(nmin, nmax, mmax) == WindowDimRec(nmin, nmax, mmax)

\* maximum degree implied by the number of coefficients (mmax < 0: not given)
RECURSIVE InferRec(_, _, _, _)
InferRec(nmin, mmax, dim, n) ==
    IF WindowDim(nmin, n, IF mmax < 0 THEN n ELSE mmax) > dim THEN n - 1
    ELSE InferRec(nmin, mmax, dim, n+1)
InferNmax(nmin, mmax, dim) == InferRec(nmin, mmax, dim, nmin)

\* ---- field of unit coefficients ------------------------------------------
\* radial powers rho^k for k = 1..N as a sequence, rho^0 = 1 first
RECURSIVE PowSeq(_, _, _)
PowSeq(x, n, acc) == IF n = 0 THEN acc ELSE PowSeq(x, n-1, Append(acc, FMul(acc[Len(acc)], x)))
RECURSIVE TrigSeq(_, _, _, _)
TrigSeq(s, c, n, acc) ==      \* <<sin m phi, cos m phi>>, m = 0..n
    IF n = 0 THEN acc
    ELSE LET l == acc[Len(acc)] IN
         TrigSeq(s, c, n-1, Append(acc, << FAdd(FMul(l[1], c), FMul(l[2], s)),
                                           FSub(FMul(l[2], c), FMul(l[1], s)) >>))

\* everything that depends on the point only: [P, Q, rad, trig]
PointTables(a, r, thD, phD, N) ==
    LET sc == FSinCosD(thD) sp == FSinCosD(phD) rho == FDiv(a, r) inv == FDiv(r, a) IN
    [P |-> PTable(sc[1], sc[2], N+1), Q |-> QTable(sc[1], sc[2], N),
     rin |-> PowSeq(rho, N+2, <<F1>>), rex |-> PowSeq(inv, N+1, <<F1>>),
     trig |-> TrigSeq(sp[1], sp[2], N, <<<<F0, F1>>>>)]

\* <<B_r, B_theta, B_phi>> of a unit coefficient w = <<n, m, g/h>>
UnitField(pt, src, w) ==
    LET n == w[1] m == w[2]
        sm == pt.trig[m+1][1] cm == pt.trig[m+1][2]
        az == IF w[3] = 0 THEN cm ELSE sm
        daz == IF w[3] = 0 THEN FNeg(sm) ELSE cm          \* d az / d(m phi)
        rad == IF src = "internal" THEN pt.rin[n+3] ELSE pt.rex[n]
        k == IF src = "internal" THEN n+1 ELSE -n
    IN << FMulI(FMul(rad, FMul(az, TabAt(pt.P, n, m))), k),
          FNeg(FMul(rad, FMul(az, DP(pt.P, n, m)))),
          FMulI(FMul(rad, FMul(FNeg(daz), TabAt(pt.Q, n, m))), m) >>

\* potential V(r, theta, phi) of a unit coefficient (for the model check)
UnitPot(pt, a, src, w) ==
    LET n == w[1] m == w[2]
        az == IF w[3] = 0 THEN pt.trig[m+1][2] ELSE pt.trig[m+1][1]
        rad == IF src = "internal" THEN pt.rin[n+2] ELSE pt.rex[n+1]
    IN FMul(a, FMul(rad, FMul(az, TabAt(pt.P, n, m))))

\* sum_i coeffs[i] * UnitField(win[i]):  <<Br, Bt, Bp, scale>>
RECURSIVE FieldRec(_, _, _, _, _, _, _)
FieldRec(pt, src, win, co, i, last, acc) ==
    IF i > last THEN acc
    ELSE IF co[i][1] = 0 THEN FieldRec(pt, src, win, co, i+1, last, acc)
    ELSE LET u == UnitField(pt, src, win[i])
             b1 == FMul(co[i], u[1]) b2 == FMul(co[i], u[2]) b3 == FMul(co[i], u[3]) IN
         FieldRec(pt, src, win, co, i+1, last,
             << FAdd(acc[1], b1), FAdd(acc[2], b2), FAdd(acc[3], b3),
                FAdd(acc[4], FAdd(FAbs(b1), FAdd(FAbs(b2), FAbs(b3)))) >>)
\* halves first: keeps the recursion shallow for long expansions
RECURSIVE FieldSpan(_, _, _, _, _, _)
FieldSpan(pt, src, win, co, lo, hi) ==
    IF hi - lo < 64 THEN TLCEval(FieldRec(pt, src, win, co, lo, hi, <<F0, F0, F0, F0>>))
    ELSE LET m == (lo + hi) \div 2
             x == TLCEval(FieldSpan(pt, src, win, co, lo, m))
             y == TLCEval(FieldSpan(pt, src, win, co, m+1, hi))
         IN [k \in 1..4 |-> FAdd(x[k], y[k])]
Field(pt, src, win, co) == FieldSpan(pt, src, win, co, 1, Len(win))
=============================================================================
