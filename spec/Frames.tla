------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Cartesian / spherical coordinates, the position of the Sun (Russell's   *)
(* almanac), dipole directions, and the right-handed orthonormal frames    *)
(* GSM, SM, MAG and USE.                                                   *)
(***************************************************************************)
EXTENDS Fx

\* ---- spherical coordinates (degrees) -----------------------------------
Unit(thD, phD) == LET t == FSinCosD(thD) p == FSinCosD(phD) IN
    << FMul(t[1], p[2]), FMul(t[1], p[1]), t[2] >>
\* up, south, east at a place
Up(thD, phD) == Unit(thD, phD)
South(thD, phD) == LET t == FSinCosD(thD) p == FSinCosD(phD) IN
    << FMul(t[2], p[2]), FMul(t[2], p[1]), FNeg(t[1]) >>
East(phD) == LET p == FSinCosD(phD) IN << FNeg(p[1]), p[2], F0 >>
Use(thD, phD) == << Up(thD, phD), South(thD, phD), East(phD) >>

\* ---- Sun -----------------------------------------------------------------
Dec(n, k) == BMul(BInt(n), Pow10(24-k))       \* n * 10^-k
\* product of a 10-digit constant given as two parts a + b*10^-5 (parts < 2^31)
JulianDay(t) == FAdd(t, FAdd(F(36524), FQ(1, 2)))       \* since 1900-01-00T12
MeanLon(t)  == FAdd(Dec(279696678, 6), FMul(BAdd(Dec(98564, 5), Dec(73354, 10)), JulianDay(t)))
MeanAnom(t) == FAdd(Dec(358475845, 6), FMul(Dec(985600267, 9), JulianDay(t)))
Century(t) == FDivI(JulianDay(t), 36525)
EclLon(t) ==                                   \* apparent ecliptic longitude
    LET g == MeanAnom(t) IN
    FSub(FAdd(FAdd(MeanLon(t),
              FMul(FSub(Dec(191946, 5), FMul(Dec(4789, 6), Century(t))), FSinD(g))),
              FMul(Dec(20094, 6), FSinD(FMulI(g, 2)))),
         Dec(5686, 6))
Obliquity(t) == FSub(Dec(2345229, 5), FMul(Dec(130125, 7), Century(t)))
\* Greenwich mean sidereal time, degrees
Gmst(t) == FAdd(FAdd(Dec(279690983, 6), FMul(BAdd(Dec(98564, 5), Dec(73354, 10)), JulianDay(t))),
                FAdd(FMulI(FMod(t, F1), 360), F(180)))
RotZ(v, angD) == LET s == FSinCosD(angD) IN          \* rotate by -ang
    << FAdd(FMul(s[2], v[1]), FMul(s[1], v[2])), FSub(FMul(s[2], v[2]), FMul(s[1], v[1])), v[3] >>
SunInertial(t) == LET l == FSinCosD(EclLon(t)) o == FSinCosD(Obliquity(t)) IN
    << l[2], FMul(l[1], o[2]), FMul(l[1], o[1]) >>
SunDir(t) == RotZ(SunInertial(t), Gmst(t))           \* geographic unit vector

\* ---- dipole ----------------------------------------------------------------
\* unit vector towards the geomagnetic north pole from g10, g11, h11
DipOfCoeffs(g) == FUnit(<< FNeg(g[2]), FNeg(g[3]), FNeg(g[1]) >>)
DipOfPole(thD, phD) == Unit(thD, phD)

\* ---- frames ------------------------------------------------------------------
GSM(s, d) == LET y == FUnit(FCross(d, s)) IN << s, y, FCross(s, y) >>
SM(s, d)  == LET y == FUnit(FCross(d, s)) IN << FCross(y, d), y, d >>
MAG(d) == LET y == FUnit(FCross(<<F0, F0, F1>>, d)) IN << FCross(y, d), y, d >>
Frame(name, s, d) == CASE name = "gsm" -> GSM(s, d) [] name = "sm" -> SM(s, d)
                       [] name = "mag" -> MAG(d)

Transpose(B) == << <<B[1][1], B[2][1], B[3][1]>>, <<B[1][2], B[2][2], B[3][2]>>,
                   <<B[1][3], B[2][3], B[3][3]>> >>
Apply(B, v) == << FDot(B[1], v), FDot(B[2], v), FDot(B[3], v) >>   \* rows are base vectors

Orthonormal(B, tol) ==
    /\ \A i \in 1..3 : \A j \in 1..3 :
         Near(FDot(B[i], B[j]), IF i = j THEN F1 ELSE F0, tol)
    /\ VNear(FCross(B[1], B[2]), B[3], tol)

\* ---- angles ------------------------------------------------------------------
\* a = b modulo 360 within tol
SameAngle(a, b, tol) == LET d == FMod(FSub(a, b), F(360)) IN
    FLe(d, tol) \/ FLe(FSub(F(360), d), tol)
=============================================================================
