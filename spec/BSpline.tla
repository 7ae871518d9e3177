------------------------------- MODULE BSpline -------------------------------
(***************************************************************************)
(* B-spline basis of order k on a knot sequence by the Cox-de Boor         *)
(* recursion (right-continuous, the last non-empty interval is closed).    *)
(***************************************************************************)
EXTENDS PiecewisePoly

\* ------- knots ----------------------------------------------------------
Augment(br, k) == [i \in 1..(k-1) |-> br[1]] \o br \o [i \in 1..(k-1) |-> br[Len(br)]]

\* index mu of the interval [kn_mu, kn_mu+1) containing t (last non-empty one at the end)
RECURSIVE SpanFrom(_, _, _)
SpanFrom(kn, t, i) == IF i = 1 \/ (FLe(kn[i], t) /\ FLt(kn[i], kn[i+1])) THEN i
                      ELSE SpanFrom(kn, t, i-1)
Span(kn, t) == SpanFrom(kn, t, Len(kn) - 1)

Ratio(a, b) == IF b[1] = 0 THEN F0 ELSE FDiv(a, b)
RECURSIVE Basis(_, _, _, _, _)
Basis(kn, i, k, t, mu) ==
    IF k = 1 THEN IF i = mu THEN F1 ELSE F0
    ELSE IF mu < i \/ mu > i + k - 1 THEN F0       \* local support
    ELSE FAdd(FMul(Ratio(FSub(t, kn[i]), FSub(kn[i+k-1], kn[i])), Basis(kn, i, k-1, t, mu)),
              FMul(Ratio(FSub(kn[i+k], t), FSub(kn[i+k], kn[i+1])), Basis(kn, i+1, k-1, t, mu)))
RECURSIVE BasisD(_, _, _, _, _, _)
BasisD(kn, i, k, t, mu, nu) ==
    IF nu = 0 THEN Basis(kn, i, k, t, mu)
    ELSE IF k = 1 THEN F0
    ELSE FMulI(FSub(Ratio(BasisD(kn, i, k-1, t, mu, nu-1), FSub(kn[i+k-1], kn[i])),
                    Ratio(BasisD(kn, i+1, k-1, t, mu, nu-1), FSub(kn[i+k], kn[i+1]))), k-1)

NBasis(kn, k) == Len(kn) - k
BInside(kn, k, t) == FLe(kn[k], t) /\ FLe(t, kn[NBasis(kn, k)+1])
Row(kn, k, t, nu) == LET mu == Span(kn, t) IN
                     [i \in 1..NBasis(kn, k) |-> BasisD(kn, i, k, t, mu, nu)]
\* expansion sum_i c_i B_i^(nu)(t), c[i][d]; coefficients beyond the basis are padding
BSplVal(kn, k, c, d, t, nu) ==
    LET r == Row(kn, k, t, nu) IN FDot(r, [i \in 1..NBasis(kn, k) |-> c[i][d]])

\* Size of the terms involved in the piecewise form at t: the powers of the piece
\* that contains t have coefficients B^(j)(break)/j!; each of them is a sum of
\* terms whose sizes Sens gives (the recursion above with sums for differences).
RECURSIVE Sens(_, _, _, _, _, _)
Sens(kn, i, k, t, mu, nu) ==
    IF nu = 0 THEN FAbs(Basis(kn, i, k, t, mu))
    ELSE IF k = 1 \/ mu < i \/ mu > i + k - 1 THEN F0
    ELSE FMulI(FAdd(Ratio(Sens(kn, i, k-1, t, mu, nu-1), FSub(kn[i+k-1], kn[i])),
                    Ratio(Sens(kn, i+1, k-1, t, mu, nu-1), FSub(kn[i+k], kn[i+1]))), k-1)
\* sum over i of |c_i| Sens^(j)_i at the left break of the piece, per j
SensRow(kn, k, c, d, mu) ==
    [j \in 1..k |-> FSum([i \in 1..NBasis(kn, k) |->
                         FMul(FAbs(c[i][d]), Sens(kn, i, k, kn[mu], mu, j-1))])]
RECURSIVE BScaleRec(_, _, _, _, _, _)
BScaleRec(A, x, nu, j, pw, acc) ==           \* j-th term: A_j x^(j-nu) / (j-nu)!
    IF j > Len(A) - 1 THEN acc
    ELSE BScaleRec(A, x, nu, j+1, FDivI(FMul(pw, x), j+1-nu), FAdd(acc, FMul(A[j+1], pw)))
BSplScale(kn, k, c, d, t, nu) ==
    LET mu == Span(kn, t) IN BScaleRec(SensRow(kn, k, c, d, mu), FAbs(FSub(t, kn[mu])), nu, nu, F1, F0)
=============================================================================
