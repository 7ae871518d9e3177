------------------------------ MODULE Induction ------------------------------
(***************************************************************************)
(* Response of a spherically layered conductor to an external field of one *)
(* harmonic degree.  With F = r times the radial factor of the electric    *)
(* field,  F'' = (n(n+1)/r^2 + i omega mu sigma(r)) F, F and F' continuous *)
(* and F regular (zero) at the centre (at a perfectly conducting core).    *)
(* A layer is propagated through y = r F'/F, which is dimensionless:       *)
(*   C-response = r0 / y(r0),    Q = n/(n+1) (1-(n+1)/y) / (1+n/y).        *)
(* Lengths in km, times in s, conductivities in S/m.                       *)
(***************************************************************************)
EXTENDS Complex, TLC

\* mu0 * 10^6 m^2/km^2 = 0.4 pi
MuKm == FDivI(FMulI(FPi, 4), 10)
\* omega * mu0 in (km^2 S/m)^-1 for a period in seconds
OmegaMu(T) == FDiv(FMul(FTwoPi, MuKm), T)

\* ---- layers with sigma(r) = s (r0/r)^2 below their top r0 ---------------
\* kappa = i omega mu s r0^2; exponents of r are 1/2 +- beta
Beta(n, kap) == CSqrt(<<FAdd(FQ((2*n+1)*(2*n+1), 4), kap[1]), kap[2]>>)
KapQ(om, s, r0) == <<F0, FMul(FMul(om, s), FSq(r0))>>
CoreQ(n, kap) == CAdd(Beta(n, kap), CR(FQ(1, 2)))
LayerQ(n, kap, r0, r1, y1) ==
    LET b == Beta(n, kap)
        h == CR(FQ(1, 2))
        sp == CAdd(h, b)
        sm == CSub(h, b)
        z == CExp(CNeg(CMulI(CScale(b, FLn(FDiv(r0, r1))), 2)))   \* (r1/r0)^(2 beta)
        A == CSub(y1, sm)
        D == CMul(CSub(sp, y1), z)
    IN CDiv(CAdd(CMul(A, sp), CMul(D, sm)), CAdd(A, D))
\* y at the surface: sigma[k], radius[k] from the top; the last layer reaches the centre
RECURSIVE QuadRec(_, _, _, _, _, _)
QuadRec(n, om, sig, rad, k, y) ==
    IF k = 0 THEN y
    ELSE QuadRec(n, om, sig, rad, k-1,
           TLCEval(LayerQ(n, KapQ(om, sig[k], rad[k]), rad[k], rad[k+1], y)))
QuadY(n, om, sig, rad) == LET K == Len(sig) IN
    QuadRec(n, om, sig, rad, K-1, CoreQ(n, KapQ(om, sig[K], rad[K])))

\* ---- layers of constant sigma: modified Riccati-Bessel functions ---------
\* <<u, z u'>> of the regular series z^(n+1) (...) without its prefactor
RECURSIVE SerRec(_, _, _, _, _, _, _)
SerRec(e, z2, c, j, t, u, d) ==      \* term t of index j; power e + 2j
    LET t2 == CDivI(CMul(t, z2), 2*j*(2*j + c)) IN
    IF j > 60 \/ (FAbs(t2[1]) = F0 /\ FAbs(t2[2]) = F0) THEN <<u, d>>
    ELSE SerRec(e, z2, c, j+1, t2, CAdd(u, t2), CAdd(d, CMulI(t2, e + 2*j)))
\* u = z^e sum t_j z^2j,  t_j = t_(j-1) / (2j (2j + c)),  e(e-1) = n(n+1), c = 2e-1
SerU(e, z2) == SerRec(e, z2, 2*e-1, 1, C1, C1, <<F(e), F0>>)
\* <<P, z P'>> with u = e^(sg z) P(1/z)
RECURSIVE ExpRec(_, _, _, _, _, _, _)
ExpRec(n, sg, w, j, t, u, d) ==
    IF j > n THEN <<u, d>>
    ELSE LET t2 == CMulI(CDivI(CMul(CMulI(t, (n+j)*(n-j+1)), w), 2*j), -sg) IN
         ExpRec(n, sg, w, j+1, t2, CAdd(u, t2), CSub(d, CMulI(t2, j)))
ExpU(n, sg, z) == LET w == CDiv(C1, z)
                      q == ExpRec(n, sg, w, 1, C1, C1, C0) IN
    <<q[1], CAdd(q[2], CMul(CMulI(z, sg), q[1]))>>

\* given y1 at r1 propagate to r0 through basis u, v:
\* uv0 = <<u, z u'>>(r0), ... ; g = ratio of growth of v against u from r1 to r0
Prop(u0, v0, u1, v1, y1, g) ==
    LET A == CSub(CMul(y1, v1[1]), v1[2])          \* coefficients up to a common factor
        D == CMul(CSub(u1[2], CMul(y1, u1[1])), g)
        \* F = A' u + D' v with F(r1) = 1:  A' ~ (y1 v1 - v1'), D' ~ (u1' - y1 u1)
    IN CDiv(CAdd(CMul(CNeg(A), u0[2]), CMul(CNeg(D), v0[2])),
            CAdd(CMul(CNeg(A), u0[1]), CMul(CNeg(D), v0[1])))
\* from a perfect conductor at r1: F(r1) = 0, so A' ~ v1, D' ~ -u1
PropCore(u0, v0, u1, v1, g) ==
    LET A == v1[1] D == CNeg(CMul(u1[1], g)) IN
    CDiv(CAdd(CMul(A, u0[2]), CMul(D, v0[2])), CAdd(CMul(A, u0[1]), CMul(D, v0[1])))
LayerC(n, om, s, r0, r1, core, y1) ==
    LET k2 == <<F0, FMul(om, s)>>
        k == CSqrt(k2)
        z0 == CScale(k, r0) z1 == CScale(k, r1)
        small == FLt(CNorm2(z0), F(64))
        u0 == IF small THEN SerU(n+1, CMul(z0, z0)) ELSE ExpU(n, 1, z0)
        u1 == IF small THEN SerU(n+1, CMul(z1, z1)) ELSE ExpU(n, 1, z1)
        v0 == IF small THEN SerU(-n, CMul(z0, z0)) ELSE ExpU(n, -1, z0)
        v1 == IF small THEN SerU(-n, CMul(z1, z1)) ELSE ExpU(n, -1, z1)
        g == IF small THEN CR(FPow(FDiv(r1, r0), 2*n+1))
             ELSE CExp(CMulI(CSub(z1, z0), 2))
    IN IF core THEN PropCore(u0, v0, u1, v1, g) ELSE Prop(u0, v0, u1, v1, y1, g)
RECURSIVE ConstRec(_, _, _, _, _, _)
ConstRec(n, om, sig, rad, k, y) ==
    IF k = 0 THEN y
    ELSE ConstRec(n, om, sig, rad, k-1,
           TLCEval(LayerC(n, om, sig[k], rad[k], rad[k+1], k = Len(rad)-1, y)))
ConstY(n, om, sig, rad) == ConstRec(n, om, sig, rad, Len(rad)-1, C0)

\* ---- responses ------------------------------------------------------------
CResp(r0, y) == CDiv(CR(r0), y)
QResp(n, y) == LET i == CDiv(C1, y) IN
    CScale(CDiv(CSub(C1, CMulI(i, n+1)), CAdd(C1, CMulI(i, n))), FQ(n, n+1))
\* apparent resistivity (Ohm m): omega mu0 |C|^2, C in metres
RhoA(om, c) == FMul(om, CNorm2(c))        \* (1/(km^2 S/m)) km^2
PhaseD(c) == FAdd(F(90), FAtan2D(c[2], c[1]))
=============================================================================
