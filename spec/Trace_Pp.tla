------------------------------ MODULE Trace_Pp ------------------------------
(* Queries of piecewise polynomials and splines, judged against            *)
(* PiecewisePoly and BSpline.                                               *)
EXTENDS BSpline, TraceBase, FiniteSets

Tol(scale) == FAdd(FMul(scale, Eps(10)), Eps(13))
SameNum(x, v, scale) == IF IsNaN(v) THEN IsNaN(x) ELSE Near(x, v, Tol(scale))

\* e.m index of the model definition [br, c]; e.time; e.dim requested (0: all);
\* e.say: there is a pre-rotation to announce;
\* e.ext number of Taylor terms (99 = whole spline, -1 = invalid method)
JudgePp(e) ==
    LET m == Defs[e.m]
        nt == Len(e.time.data)
        someout == \E i \in 1..nt : Outside(m, e.time.data[i])
        D == IF e.dim = 0 \/ e.dim > PpDim(m) THEN PpDim(m) ELSE e.dim
    IN IF e.ext = -1 /\ someout
       THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "unknown-extrapolation-accepted"
       ELSE IF IsExc(e) THEN "query-rejected"
       ELSE IF e.out.shape # Append(e.time.shape, D) THEN "shape"
       ELSE IF someout /\ ~e.warned THEN "no-warning-outside"
       ELSE IF e.dim > PpDim(m) /\ ~e.warned THEN "no-warning-dim"
       ELSE IF e.say /\ ~e.warned THEN "no-warning-pre-rotation"
       ELSE IF e.warned /\ ~someout /\ e.dim <= PpDim(m) /\ ~e.say THEN "warning-without-cause"
       ELSE LET Good(i) == LET t == e.time.data[i] IN
                   \A d \in 1..D : LET q == Coefficient(m, d, t, e.ext, e.nu) IN
                        SameNum(e.out.data[(i-1)*D + d], q[1], q[2])
                bad == {i \in 1..nt : ~Good(i)}
            IN IF bad = {} THEN "ok"
               ELSE IF \E i \in bad : Outside(m, e.time.data[i]) THEN "outside-value"
               ELSE "inside-value"

\* a model without coefficients
JudgeNone(e) == IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "missing-coefficients-accepted"

\* attributes of a model built from br, c (all rows given), requested order
\* a model without coefficients (and possibly without breaks or order)
JudgeAttr0(e) ==
    LET n == Len(e.br)
    IN IF IsExc(e) THEN "construction-rejected"
       ELSE IF e.out.pieces # (IF n = 0 THEN -1 ELSE IF n = 1 THEN 1 ELSE n - 1) THEN "pieces"
       ELSE IF e.out.br # (IF n = 1 THEN <<e.br[1], e.br[1]>> ELSE e.br) THEN "breaks"
       ELSE IF e.out.order # e.order THEN "order"
       ELSE IF e.out.dim # -1 THEN "dim"
       ELSE "ok"
JudgeAttr(e) ==
    LET P == IF Len(e.br) = 1 THEN 1 ELSE Len(e.br) - 1
        K == IF e.order = 0 \/ e.order > Len(e.c) THEN Len(e.c) ELSE e.order
        br == IF Len(e.br) = 1 THEN <<e.br[1], e.br[1]>> ELSE e.br
        low == SubSeq(e.c, Len(e.c) - K + 1, Len(e.c))
        D == Len(e.c[1][1])
    IN IF IsExc(e) THEN "construction-rejected"
       ELSE IF e.out.pieces # P THEN "pieces"
       ELSE IF e.out.order # K THEN "order"
       ELSE IF e.out.dim # D THEN "dim"
       ELSE IF e.out.nmax # -1 /\ e.out.nmax * (e.out.nmax + 2) # D THEN "nmax"
       ELSE IF e.out.br # br THEN "breaks"
       ELSE IF e.out.c # low THEN "coefficient-rows"
       ELSE "ok"

\* pp-form: rows of coefs are piece-major, dimension fastest; columns highest power first
PpFormVal(pp, p, d) == pp.coefs[(p-1)*pp.dim + d]
JudgePpForm(e) ==
    LET m == Defs[e.m] IN
    IF IsExc(e) THEN "pp-form-rejected"
    ELSE IF e.out.pieces # PpPieces(m) \/ e.out.order # PpOrder(m) \/ e.out.dim # PpDim(m)
         THEN "pp-form-header"
    ELSE IF e.out.form # "pp" THEN "pp-form-tag"
    ELSE IF Len(e.out.breaks) # Len(m.br) \/ Len(e.out.coefs) # PpPieces(m) * PpDim(m)
         THEN "pp-form-size"
    ELSE IF e.out.breaks # m.br THEN "pp-form-breaks"
    ELSE IF \A p \in 1..PpPieces(m) : \A d \in 1..PpDim(m) :
              PpFormVal(e.out, p, d) = Coefs(m, p, d)
         THEN "ok" ELSE "pp-form-coefficients"

\* ---- B-splines ---------------------------------------------------------
JudgeAugment(e) ==
    IF e.ndim > 1 THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "2d-breaks-accepted"
    ELSE IF IsExc(e) THEN "augment-rejected"
    ELSE IF e.out.data = Augment(e.br, e.k) THEN "ok" ELSE "augmented-knots"

JudgeColloc(e) ==
    LET kn == e.kn N == NBasis(e.kn, e.k) IN
    IF IsExc(e) THEN "collocation-rejected"
    ELSE IF e.out.shape # <<Len(e.x), N>> THEN "collocation-shape"
    ELSE IF \A j \in 1..Len(e.x) :
            ~BInside(kn, e.k, e.x[j]) \/
            LET r == Row(kn, e.k, e.x[j], e.nu)
                s == FMaxAbs(r)
                \* what the last digit kept of x can change
                dx == FMul(FMaxAbs(Row(kn, e.k, e.x[j], e.nu + 1)), FMulI(Eps(24), 4))
            IN \A i \in 1..N : \/ Near(e.out.data[(j-1)*N + i], r[i], Tol(FMax(s, F1)))
                               \/ Near(e.out.data[(j-1)*N + i], r[i],
                                       FAdd(Tol(FMax(s, F1)), dx))
         THEN "ok" ELSE "collocation-values"

\* conversion: out has breaks and coefficients c[k][p][d]
DistinctKnots(kn) == LET s == {i \in 1..Len(kn) : i = 1 \/ FLt(kn[i-1], kn[i])} IN Cardinality(s)
JudgeConvert(e) ==
    IF IsExc(e) THEN "conversion-rejected"
    ELSE LET m == [br |-> e.out.br, c |-> e.out.c] IN
    IF Len(m.br) # DistinctKnots(e.kn) THEN "number-of-breaks"
    ELSE IF {m.br[i] : i \in 1..Len(m.br)} # {e.kn[i] : i \in 1..Len(e.kn)}
            \/ ~ \A i \in 2..Len(m.br) : FLt(m.br[i-1], m.br[i]) THEN "breaks"
    ELSE IF Len(m.c) # e.k \/ Len(m.c[1]) # Len(m.br) - 1 THEN "pp-shape"
    ELSE IF \A j \in 1..Len(e.x) : \A d \in 1..Len(e.coef[1]) : \A nu \in 0..(e.k - 1) :
            LET v == BSplVal(e.kn, e.k, e.coef, d, e.x[j], nu)
                q == PieceVal(m, Piece(m, e.x[j]), d, e.x[j], nu)
            IN Near(q[1], v, Tol(FMulI(BSplScale(e.kn, e.k, e.coef, d, e.x[j], nu), 10)))
         THEN "ok" ELSE "same-function"
\* evaluation of a model built from a B-spline, per year
JudgeFromB(e) ==
    IF IsExc(e) THEN "query-rejected"
    ELSE LET D == Len(e.coef[1]) IN
    IF e.out.shape # <<Len(e.x), D>> THEN "shape"
    ELSE IF \A j \in 1..Len(e.x) : \A d \in 1..D :
            LET v == FMul(BSplVal(e.kn, e.k, e.coef, d, e.x[j], e.nu), YearFactor(e.nu))
            IN Near(e.out.data[(j-1)*D + d], v, Tol(FMulI(FMul(BSplScale(e.kn, e.k, e.coef, d, e.x[j], e.nu), YearFactor(e.nu)), 10)))
         THEN "ok" ELSE "same-function"

\* the pre-rotation every satellite of the model was given (empty: none)
JudgePrerot(e) == IF IsExc(e) THEN "no-pre-rotation-entry"
                  ELSE IF e.out.row = e.row THEN "ok" ELSE "pre-rotation-of-another-satellite"

JudgePP(e) == CASE e.op = "pp" -> JudgePp(e)
                [] e.op = "none" -> JudgeNone(e)
                [] e.op = "prerot" -> JudgePrerot(e)
                [] e.op = "attr" -> JudgeAttr(e)
                [] e.op = "attr0" -> JudgeAttr0(e)
                [] e.op = "ppform" -> JudgePpForm(e)
                [] e.op = "augment" -> JudgeAugment(e)
                [] e.op = "colloc" -> JudgeColloc(e)
                [] e.op = "convert" -> JudgeConvert(e)
                [] e.op = "fromb" -> JudgeFromB(e)
=============================================================================
