------------------------------ MODULE Ellipsoid ------------------------------
(***************************************************************************)
(* Geodetic coordinates over an ellipsoid of revolution with equatorial    *)
(* radius a and polar radius b: height above it along the normal whose     *)
(* colatitude is beta.                                                     *)
(***************************************************************************)
EXTENDS Fx

\* <<distance from the axis, distance from the equatorial plane>>
Foot(a, b, betaD) ==
    LET sc == FSinCosD(betaD)           \* cos(lat) = sin(beta), sin(lat) = cos(beta)
        n == FSqrt(FAdd(FSq(FMul(a, sc[1])), FSq(FMul(b, sc[2]))))
    IN << FDiv(FMul(FSq(a), sc[1]), n), FDiv(FMul(FSq(b), sc[2]), n) >>
Geodetic(a, b, h, betaD) ==
    LET f == Foot(a, b, betaD) sc == FSinCosD(betaD) IN
    << FAdd(f[1], FMul(h, sc[1])), FAdd(f[2], FMul(h, sc[2])) >>
\* the same in geocentric coordinates
Geocentric(r, thD) == LET sc == FSinCosD(thD) IN << FMul(r, sc[1]), FMul(r, sc[2]) >>

\* north and down base vectors at geodetic colatitude beta, resolved into the
\* (up, south, east) components at geocentric colatitude theta
GgBase(thD, betaD) ==
    LET psi == FSinCosD(FSub(thD, betaD)) IN
    << << FNeg(psi[1]), FNeg(psi[2]), F0 >>,      \* north
       << F0, F0, F1 >>,                          \* east
       << FNeg(psi[2]), psi[1], F0 >> >>          \* down
=============================================================================
