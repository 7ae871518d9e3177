------------------------------ MODULE MC_Frames ------------------------------
(* Laws of the frames, the Sun and the ellipsoid on grids.                     *)
EXTENDS Frames, Ellipsoid, TLC, IOUtils
Big == IOEnv.FR_BIG = "1"
VARIABLES day, hour, dip
Dipoles == { <<-29442, -1501, 4797>>, <<10, 0, 0>>, <<-1, 5, -3>>, <<2, -1, 1>>, <<-1, 0, 0>> }
Init == day \in (IF Big THEN {-36100, -10000, 0, 5000, 9000, 36100} ELSE {-9000, 0, 8000})
        /\ hour = 0 /\ dip \in Dipoles
\* one step: 1 day 7 hours within a year
Next == hour < (IF Big THEN 280 ELSE 70) /\ hour' = hour + 1 /\ UNCHANGED <<day, dip>>
T == FAdd(F(day), FDivI(F(hour * 127), 24))          \* steps of 5 days 7 hours
S == TLCEval(SunDir(T))
D == TLCEval(DipOfCoeffs([i \in 1..3 |-> F(dip[i])]))
Tol == Eps(18)
SunInv == /\ Near(FNorm(S), F1, Tol)
          /\ FLe(FAbs(S[3]), FAdd(FSinD(Obliquity(T)), Tol))
\* the mean motion: within 2.0 degrees of longitude of noon over the mean Sun,
\* equation of time below 5 degrees
SunNoonInv == LET lon == FSub(F(180), FMulI(FMod(T, F1), 360))
                  c == FDot(FUnit(<<S[1], S[2], F0>>), Unit(F(90), lon)) IN
              FLt(FCosD(F(5)), c)
FrameInv ==
    /\ Orthonormal(GSM(S, D), Tol) /\ Orthonormal(SM(S, D), Tol)
    /\ FLt(F0, FDot(GSM(S, D)[3], D)) /\ Near(FDot(GSM(S, D)[2], D), F0, Tol)
    /\ VNear(SM(S, D)[3], D, Tol) /\ Near(FDot(SM(S, D)[2], S), F0, Tol)
    /\ FLt(F0, FDot(SM(S, D)[1], S))
    /\ VNear(GSM(S, D)[2], SM(S, D)[2], Tol)
MagInv == (dip[2] # 0 \/ dip[3] # 0) =>
    /\ Orthonormal(MAG(D), Tol) /\ Near(MAG(D)[2][3], F0, Tol) /\ VNear(MAG(D)[3], D, Tol)
\* the dipole field -grad(V) of g is antiparallel to the unit vector at its axis: potential minimum
DipInv == LET g == [i \in 1..3 |-> F(dip[i])] IN     \* g10 z + g11 x + h11 y along D
    FLt(FAdd(FMul(g[1], D[3]), FAdd(FMul(g[2], D[1]), FMul(g[3], D[2]))), F0)
UseInv == LET th == F(1 + ((hour * 7) % 179)) ph == F(hour * 31 - 500) IN
    /\ Orthonormal(Use(th, ph), Tol)
    /\ VNear(Apply(Transpose(GSM(S, D)), Apply(GSM(S, D), Unit(th, ph))), Unit(th, ph), Tol)
\* ellipsoid: foot point on the surface, the height along the surface normal
Ells == { <<6378137, 6356752>>, <<6371200, 6371200>>, <<1000000, 500000>> }
EllInv == \A el \in Ells : LET a == FQ(el[1], 1000) b == FQ(el[2], 1000)
                               be == FQ((hour * 18) % 181, 1)
                               h == FQ(100 * ((hour % 9) - 1), 1)
                               f == Foot(a, b, be) p == Geodetic(a, b, h, be)
                               nrm == FUnit(<<FDiv(f[1], FSq(a)), FDiv(f[2], FSq(b))>>) IN
    /\ Near(FAdd(FSq(FDiv(f[1], a)), FSq(FDiv(f[2], b))), F1, Eps(17))
    /\ VNear(nrm, FSinCosD(be), Eps(14))
    /\ Near(FNorm(FVSub(p, f)), FAbs(h), Eps(17))
    /\ Orthonormal(<<GgBase(F(hour), be)[1], GgBase(F(hour), be)[2], GgBase(F(hour), be)[3]>>, Tol)
    /\ LET th == F(hour % 180) q == GgBase(th, be)         \* down, as a vector in the meridian plane
           dn == FVAdd(FScale(FSinCosD(th), q[3][1]), FScale(<<FCosD(th), FNeg(FSinD(th))>>, q[3][2])) IN
       VNear(dn, FScale(FSinCosD(be), F(-1)), Eps(18))
=============================================================================
