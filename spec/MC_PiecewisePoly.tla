--------------------------- MODULE MC_PiecewisePoly ---------------------------
(* Small piecewise polynomials with integer coefficients, all times on a      *)
(* grid over and around the period, all extrapolation orders and derivatives. *)
EXTENDS PiecewisePoly, TLC, IOUtils
Big == IOEnv.PP_BIG = "1"
Order == IF Big THEN 4 ELSE 3
CoefVals == {-2, 1}
Breaks == { <<0, 2, 3>>, <<-1, 1, 4>> }
\* breaks with a zero-length last piece are order-1 models read from files
Grid == (-12)..24                          \* quarter days
VARIABLES br, co1, co2, t, ext, nu
vars == <<br, co1, co2, t, ext, nu>>
M == [br |-> [i \in 1..3 |-> F(br[i])],
      c |-> [k \in 1..Order |-> << <<F(co1[k])>>, <<F(co2[k])>> >>]]
T == FQ(t, 4)
Init == /\ br \in Breaks /\ co1 \in [1..Order -> CoefVals] /\ co2 \in [1..Order -> CoefVals]
        /\ t = CHOOSE x \in Grid : \A y \in Grid : x <= y
        /\ ext \in 0..(Order+1) /\ nu \in 0..(Order+1)
\* a query session: time moves on
Next == t < 24 /\ t' = t + 1 /\ UNCHANGED <<br, co1, co2, ext, nu>>
V(tt, e, n) == Query(M, 1, tt, e, n)[1]
Tol == Eps(18)
\* inside: the value is independent of the extrapolation order
InsideInv == ~Outside(M, T) => V(T, ext, nu) = V(T, 2, nu)
\* the derivative is the derivative: Taylor expansion of the same piece is exact
RECURSIVE TaySum(_, _, _, _)
TaySum(p, h, n, j) == IF j > Order THEN F0
    ELSE FAdd(FDivI(FMul(PieceVal(M, p, 1, T, n + j)[1], FPow(h, j)), Factorial(j)),
              TaySum(p, h, n, j+1))
DerivInv == ~Outside(M, T) =>
    LET p == Piece(M, T) h == FQ(1, 4) IN
    Near(PieceVal(M, p, 1, FAdd(T, h), nu)[1], TaySum(p, h, nu, 0), Tol)
\* right-continuity at interior breaks, last piece at the end
BreakInv == /\ T = M.br[2] => V(T, ext, nu) = Poly(Coefs(M, 2, 1), F0, nu)[1]
            /\ T = M.br[3] => V(T, ext, nu) = PieceVal(M, 2, 1, T, nu)[1]
\* a derivative of order K and more vanishes inside
ZeroInv == (nu >= Order /\ ~Outside(M, T)) => V(T, ext, nu) = F0
OffInv == (ext = 0 /\ Outside(M, T)) <=> (V(T, ext, nu) = FNaN)
\* extrapolation with all terms is the outer piece itself, and orders cap
FullInv == (Outside(M, T) /\ ext >= Order) =>
    /\ Near(V(T, ext, nu), PieceVal(M, IF FLt(T, PpStart(M)) THEN 1 ELSE 2, 1, T, nu)[1], Tol)
    /\ V(T, ext, nu) = V(T, Order, nu)
\* extrapolation is the polynomial of degree ext-1 in the distance
DegInv == (Outside(M, T) /\ nu >= ext /\ ext > 0) => V(T, ext, nu) = F0
\* the extrapolation joins the model at the break, with ext-1 derivatives
JoinInv == (Outside(M, T) /\ ext > nu) =>
    LET left == FLt(T, PpStart(M))
        b == IF left THEN PpStart(M) ELSE PpEnd(M)
        e == FQ(1, 1000000)
        tb == IF left THEN FSub(b, e) ELSE FAdd(b, e)
        inner == PieceVal(M, IF left THEN 1 ELSE 2, 1, b, nu)[1]
    IN Near(V(tb, ext, nu), inner, FQ(1, 100))
=============================================================================
