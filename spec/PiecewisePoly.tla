--------------------------- MODULE PiecewisePoly ---------------------------
(***************************************************************************)
(* Piecewise polynomials in time as documented for Base / BaseModel:       *)
(* m = [br |-> breaks (P+1), c |-> coefficients c[k][p][d], highest power  *)
(* first] (k = 1..K, p = 1..P, d = 1..D).                                  *)
(***************************************************************************)
EXTENDS Fx

PpOrder(m) == Len(m.c)
PpPieces(m) == Len(m.br) - 1
PpDim(m) == Len(m.c[1][1])
PpStart(m) == m.br[1]
PpEnd(m) == m.br[Len(m.br)]
Outside(m, t) == IsFin(t) /\ (FLt(t, PpStart(m)) \/ FLt(PpEnd(m), t))

\* index of the piece that contains t: the last one whose left break is <= t
RECURSIVE PieceFrom(_, _, _)
PieceFrom(m, t, p) == IF p = 1 \/ FLe(m.br[p], t) THEN p ELSE PieceFrom(m, t, p-1)
Piece(m, t) == PieceFrom(m, t, PpPieces(m))

\* falling factorial j (j-1) ... (j-nu+1)
RECURSIVE Fall(_, _)
Fall(j, nu) == IF nu = 0 THEN 1 ELSE j * Fall(j-1, nu-1)
RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n-1)

\* <<value, sum of absolute terms>> of the nu-th derivative of a polynomial with
\* coefficients co[1..K] (highest power first) at offset x
RECURSIVE PolyRec(_, _, _, _, _, _)
PolyRec(co, x, nu, j, pw, acc) ==       \* j: current power, pw = x^(j-nu)
    IF j >= Len(co) THEN acc
    ELSE LET term == FMul(FMulI(co[Len(co)-j], Fall(j, nu)), pw) IN
         PolyRec(co, x, nu, j+1, FMul(pw, x), <<FAdd(acc[1], term), FAdd(acc[2], FAbs(term))>>)
Poly(co, x, nu) == IF nu >= Len(co) THEN <<F0, F0>>
                   ELSE PolyRec(co, x, nu, nu, F1, <<F0, F0>>)

Coefs(m, p, d) == [k \in 1..PpOrder(m) |-> m.c[k][p][d]]

\* derivative of piece p at time t
PieceVal(m, p, d, t, nu) == Poly(Coefs(m, p, d), FSub(t, m.br[p]), nu)

\* Taylor polynomial with `ext` terms of the outer piece about the outer break
\* evaluated at t (nu-th derivative)
RECURSIVE TaylorRec(_, _, _, _, _, _, _, _)
TaylorRec(m, p, d, b, x, ext, nu, acc) ==
    LET j == acc[3] IN
    IF j >= ext THEN acc
    ELSE LET der == PieceVal(m, p, d, b, j)[1]
             term == FDivI(FMul(der, FPow(x, j - nu)), Factorial(j - nu))
         IN TaylorRec(m, p, d, b, x, ext, nu,
                      <<FAdd(acc[1], term), FAdd(acc[2], FAbs(term)), j+1>>)
Extrap(m, d, t, ext, nu) ==
    LET left == FLt(t, PpStart(m))
        b == IF left THEN PpStart(m) ELSE PpEnd(m)
        p == IF left THEN 1 ELSE PpPieces(m)
        e == IF ext > PpOrder(m) THEN PpOrder(m) ELSE ext
    IN IF nu >= e THEN <<F0, F0>>
       ELSE TaylorRec(m, p, d, b, FSub(t, b), e, nu, <<F0, F0, nu>>)

\* documented query: <<value, scale>>, NaN outside if ext = 0.  No unit factor.
Query(m, d, t, ext, nu) ==
    IF IsNaN(t) THEN <<FNaN, F0>>
    ELSE IF ~Outside(m, t) THEN PieceVal(m, Piece(m, t), d, t, nu)
    ELSE IF ext <= 0 THEN <<FNaN, F0>>
    ELSE Extrap(m, d, t, ext, nu)

DaysPerYear == FQ(36525, 100)
YearFactor(nu) == FPow(DaysPerYear, nu)
Coefficient(m, d, t, ext, nu) ==       \* per year^nu
    LET q == Query(m, d, t, ext, nu) IN
    IF IsNaN(q[1]) THEN q ELSE <<FMul(q[1], YearFactor(nu)), FMul(q[2], YearFactor(nu))>>
=============================================================================
