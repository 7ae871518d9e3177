------------------------------- MODULE Spectrum -------------------------------
(***************************************************************************)
(* Spatial power spectrum, degree correlation and sensitivity as documented *)
(* (Sabaka et al. 2010).  MC_Spectrum compares the spectrum with the mean   *)
(* square of the synthesised field over the sphere by an exact quadrature.  *)
(***************************************************************************)
EXTENDS Harmonics

SumSq(v) == FDot(v, v)
\* rho = a/r, inv = r/a; v the 2n+1 coefficients of degree n
SpecDegree(src, n, rho, inv, v) ==
    CASE src = "internal" -> FMulI(FMul(FPow(rho, 2*n+4), SumSq(v)), n+1)
      [] src = "external" -> FMulI(FMul(FPow(inv, 2*n-2), SumSq(v)), n)
      [] src = "toroidal" -> FDivI(FMulI(SumSq(v), n*(n+1)), 2*n+1)

DegVec(x, n) == SubSeq(x, n*n, n*n + 2*n)
DegreeCorr(n, x, y) ==
    LET a == DegVec(x, n) b == DegVec(y, n) d == FMul(FSqrt(SumSq(a)), FSqrt(SumSq(b))) IN
    IF d[1] = 0 THEN FNaN ELSE FDiv(FDot(a, b), d)

RECURSIVE DegreeOfRec(_, _)
DegreeOfRec(i, n) == IF i <= n*(n+2) THEN n ELSE DegreeOfRec(i, n+1)
DegreeOf(i) == DegreeOfRec(i, 1)
\* <<value, scale>>
Sensitivity(i, x, y) ==
    LET n == DegreeOf(i)
        s == FSqrt(FDivI(SumSq(DegVec(y, n)), 2*n+1))
    IN IF s[1] = 0 THEN <<FNaN, F0>>
       ELSE << FDiv(FSub(x[i], y[i]), s), FDiv(FAdd(FAbs(x[i]), FAbs(y[i])), s) >>
=============================================================================
