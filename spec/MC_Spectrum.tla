----------------------------- MODULE MC_Spectrum -----------------------------
(* The power spectrum of degree n equals the mean square field over the       *)
(* sphere (exact Gauss-Legendre-free quadrature: Fejer's first rule in theta, *)
(* equidistant in phi), correlation laws, for small coefficient vectors.      *)
EXTENDS Spectrum, IOUtils
VARIABLES src, vec, n
N == IF IOEnv.SP_BIG = "1" THEN 3 ELSE 2
Vals == {-1, 0, 2}
Patterns(k) == {[i \in 1..k |-> F(IF i = j THEN a ELSE IF i = l THEN b ELSE 0)] :
                a \in {1, -2}, b \in {0, 3}, j \in 1..k, l \in 1..k}
Init == src \in {"internal", "external"} /\ n \in 1..N /\ vec \in Patterns(2*n+1)
Next == UNCHANGED <<src, vec, n>>
\* Fejer rule with K nodes theta_k = (2k-1) pi / 2K is exact for polynomials of cos theta < K
K == 4*N + 4
RECURSIVE FejerSum(_, _, _)
FejerSum(c2, j, k) == IF j > K \div 2 THEN F0
   ELSE FAdd(FDivI(FCosD(FDivI(F(2*j*(2*k-1)*180), 2*K)), 4*j*j - 1), FejerSum(c2, j+1, k))
Weight(k) == FDivI(FMulI(FSub(F1, FMulI(FejerSum(0, 1, k), 2)), 2), K)
Wts == [k \in 1..K |-> Weight(k)]
L == 2*N + 3
A == F(100)
R == F(110)
Theta(k) == FDivI(F((2*k-1)*180), 2*K)
Tabs == TLCEval([k \in 1..K |-> [l \in 0..(L-1) |-> PointTables(A, R, Theta(k), FDivI(F(360*l), L), N)]])
RECURSIVE PhiSum(_, _, _)
PhiSum(k, l, w) == IF l = L THEN F0
    ELSE LET f == Field(Tabs[k][l], src, w, vec) IN
         FAdd(FAdd(FSq(f[1]), FAdd(FSq(f[2]), FSq(f[3]))), PhiSum(k, l+1, w))
RECURSIVE ThSum(_, _)
ThSum(k, w) == IF k > K THEN F0 ELSE FAdd(FMul(Wts[k], FDivI(PhiSum(k, 0, w), 2*L)), ThSum(k+1, w))
MeanSquareInv ==
    Near(SpecDegree(src, n, FDiv(A, R), FDiv(R, A), vec), ThSum(1, Window(n, n, n)), Eps(12))
Full(v) == [i \in 1..(n*(n+2)) |-> IF i >= n*n THEN v[i - n*n + 1] ELSE F1]
Other == [i \in 1..(2*n+1) |-> F(i - n)]
CorrInv == LET x == Full(vec) y == Full(Other) c == DegreeCorr(n, x, y) IN
    /\ NearRel(DegreeCorr(n, x, x), F1, Eps(12), F1)
    /\ Near(DegreeCorr(n, y, x), c, Eps(12))
    /\ Near(DegreeCorr(n, [i \in 1..Len(x) |-> FMulI(x[i], 7)], y), c, Eps(12))
    /\ FLe(FAbs(c), FAdd(F1, Eps(12)))
SensInv == LET x == Full(vec) y == Full(Other) IN
    \A i \in 1..Len(x) : /\ Sensitivity(i, y, y)[1] = F0
                         /\ n = 1 \/ i >= n*n \/ DegreeOf(i) < n
=============================================================================
