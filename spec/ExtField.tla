------------------------------ MODULE ExtField ------------------------------
(***************************************************************************)
(* The sources of a CHAOS model.                                            *)
(*   M = [tdep, stat |-> <<pp>> or <<>> if missing,                              *)
(*        gsm |-> coefficients in GSM (<<>> if missing),                    *)
(*        sm  |-> coefficients in SM: the first three are per unit of the   *)
(*                RC-index, the rest constant (<<>> if missing),            *)
(*        dl  |-> three piecewise constants (q10, q11, s11 offsets)]        *)
(*   S = [ext, ind |-> Fourier spectra (see Fourier) of the rotation from   *)
(*        the frame to GEO, without and with the induction response,        *)
(*        dip |-> dipole it was computed for]                               *)
(*   R = [t, e, i |-> sequences]: tabulated RC-index, linear in between.    *)
(* Values come with a tolerance that grows with the phase 2 pi f t.         *)
(***************************************************************************)
EXTENDS Harmonics, PiecewisePoly, Fourier

Sources == {"tdep", "static", "gsm", "sm"}
NDeg(dim) == InferNmax(1, -1, dim)

\* ---- the RC-index ----------------------------------------------------------
RCInside(R, t) == FLe(R.t[1], t) /\ FLe(t, R.t[Len(R.t)])
RECURSIVE RCIdx(_, _, _, _)
RCIdx(R, t, lo, hi) ==                  \* R.t[lo] <= t, t < R.t[hi] or hi last
    IF hi = lo + 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF FLe(R.t[m], t) THEN RCIdx(R, t, m, hi) ELSE RCIdx(R, t, lo, m)
RCVal(R, v, t) ==
    LET k == RCIdx(R, t, 1, Len(R.t)) IN
    FAdd(v[k], FMul(FSub(v[k+1], v[k]), FDiv(FSub(t, R.t[k]), FSub(R.t[k+1], R.t[k]))))

\* ---- coefficients ----------------------------------------------------------
\* row i of a synthesised matrix times a vector: <<value, tolerance>>
RECURSIVE RowRec(_, _, _, _, _, _, _)
RowRec(F_, t, i, c, n2, j, acc) ==
    IF j > n2 THEN acc
    ELSE IF c[j][1] = 0 THEN RowRec(F_, t, i, c, n2, j+1, acc)
    ELSE LET v == Synth(F_, t, (i-1)*F_.spec.shape[3] + j) IN
         RowRec(F_, t, i, c, n2, j+1,
                <<FAdd(acc[1], FMul(v[1], c[j])),
                  FAdd(acc[2], FMul(FAbs(c[j]), FAdd(v[2], FMul(FAbs(v[1]), Eps(11)))))>>)
RotRow(F_, t, i, c) == RowRec(F_, t, i, c, Len(c), 1, <<F0, Eps(13)>>)

GsmCoeff(M, S, t, src, i) == RotRow(IF src = "external" THEN S.ext ELSE S.ind, t, i, M.gsm)

Delta(M, k, t) == PieceVal(M.dl[k], Piece(M.dl[k], t), 1, t, 0)[1]
\* coefficients in the SM frame
SmVec(M, t, rc) == [j \in 1..Len(M.sm) |->
    IF j <= 3 THEN FAdd(FMul(rc, M.sm[j]), Delta(M, j, t)) ELSE M.sm[j]]
\* the induced part of the RC-index is given by the index itself, hence rotated as is
SmVecInd(M, t) == [j \in 1..Len(M.sm) |-> IF j <= 3 THEN Delta(M, j, t) ELSE M.sm[j]]
SmVecRC(M, rc) == [j \in 1..3 |-> FMul(rc, M.sm[j])]
SmCoeff(M, S, t, src, rc, i) ==
    IF src = "external" THEN RotRow(S.ext, t, i, TLCEval(SmVec(M, t, rc)))
    ELSE LET a == RotRow(S.ind, t, i, TLCEval(SmVecInd(M, t)))
             b == IF i <= 3 THEN RotRow(S.ext, t, i, TLCEval(SmVecRC(M, rc))) ELSE <<F0, F0>>
         IN <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>

\* ---- field of coefficients with tolerances at a point ----------------------
RECURSIVE TolRec(_, _, _, _, _, _, _)
TolRec(pt, src, win, cv, i, last, acc) ==
    IF i > last THEN acc
    ELSE IF cv[i][1][1] = 0 /\ cv[i][2][1] = 0 THEN TolRec(pt, src, win, cv, i+1, last, acc)
    ELSE LET n == win[i][1] rad == IF src = "internal" THEN pt.rin[n+3] ELSE pt.rex[n] IN
         TolRec(pt, src, win, cv, i+1, last,
                FAdd(acc, FMulI(FMul(FAdd(cv[i][2], FMul(FAbs(cv[i][1]), Eps(11))), rad), 2*(n+1))))
RECURSIVE TolSpan(_, _, _, _, _, _)
TolSpan(pt, src, win, cv, lo, hi) ==
    IF hi - lo < 64 THEN TLCEval(TolRec(pt, src, win, cv, lo, hi, F0))
    ELSE LET m == (lo + hi) \div 2
             x == TLCEval(TolSpan(pt, src, win, cv, lo, m))
         IN FAdd(x, TolSpan(pt, src, win, cv, m+1, hi))
\* <<Br, Btheta, Bphi, tolerance>> of coefficients cv[i] = <<value, tolerance>>
FieldTol(a, r, th, ph, src, cv) ==
    LET N == NDeg(Len(cv))
        pt == TLCEval(PointTables(a, r, th, ph, N))
        win == TLCEval(Window(1, N, N))
        f == TLCEval(Field(pt, src, win, [i \in 1..Len(cv) |-> cv[i][1]]))
    IN <<f[1], f[2], f[3], FAdd(TolSpan(pt, src, win, cv, 1, Len(win)), Eps(12))>>
Zero4 == <<F0, F0, F0, F0>>
Add4(x, y) == [k \in 1..4 |-> FAdd(x[k], y[k])]

GsmCut(M, nmax) == IF nmax < 0 \/ nmax > NDeg(Len(M.gsm)) THEN NDeg(Len(M.gsm)) ELSE nmax
SmCut(M, nmax) == IF nmax < 0 \/ nmax > NDeg(Len(M.sm)) THEN NDeg(Len(M.sm)) ELSE nmax
StatCut(M, nmax) == LET n == NDeg(PpDim(M.stat[1])) IN IF nmax < 0 \/ nmax > n THEN n ELSE nmax

Parts(src) == IF src = "all" THEN {"external", "internal"} ELSE {src}
\* coefficients of the external and induced parts at a time
GsmCo(M, S, t, src, nmax) ==
    LET N == GsmCut(M, nmax) IN
    [s \in Parts(src) |-> TLCEval([i \in 1..(N*(N+2)) |-> TLCEval(GsmCoeff(M, S, t, s, i))])]
SmCo(M, S, t, src, nmax, rce, rci) ==
    LET N == SmCut(M, nmax) IN
    [s \in Parts(src) |-> TLCEval([i \in 1..(N*(N+2)) |->
        TLCEval(SmCoeff(M, S, t, s, IF s = "external" THEN rce ELSE rci, i))])]
\* field of such coefficients
CoField(co, a, r, th, ph) ==
    Add4(IF "external" \in DOMAIN co THEN FieldTol(a, r, th, ph, "external", co["external"]) ELSE Zero4,
         IF "internal" \in DOMAIN co THEN FieldTol(a, r, th, ph, "internal", co["internal"]) ELSE Zero4)
GsmField(M, S, a, t, r, th, ph, src, nmax) == CoField(TLCEval(GsmCo(M, S, t, src, nmax)), a, r, th, ph)
SmField(M, S, a, t, r, th, ph, src, nmax, rce, rci) ==
    CoField(TLCEval(SmCo(M, S, t, src, nmax, rce, rci)), a, r, th, ph)
WithTol(v) == <<v[1], FAdd(FMul(v[2], Eps(10)), Eps(12))>>
\* time-dependent internal field; ext Taylor terms outside the breaks
TdepField(M, a, t, r, th, ph) ==
    LET D == PpDim(M.tdep[1]) N == NDeg(D) IN
    FieldTol(a, r, th, ph, "internal",
             TLCEval([i \in 1..(N*(N+2)) |-> TLCEval(WithTol(Coefficient(M.tdep[1], i, t, 2, 0)))]))
StatField(M, a, r, th, ph, nmax) ==
    LET N == StatCut(M, nmax) IN
    FieldTol(a, r, th, ph, "internal",
             TLCEval([i \in 1..(N*(N+2)) |-> TLCEval(<<M.stat[1].c[1][1][i], FMul(FAbs(M.stat[1].c[1][1][i]), Eps(11))>>)]))

\* sum of a set of sources, given the magnetospheric coefficients at the time
TotalCo(M, cg, cs, a, t, r, th, ph, set, nstat) ==
    Add4(Add4(IF "tdep" \in set THEN TdepField(M, a, t, r, th, ph) ELSE Zero4,
              IF "static" \in set THEN StatField(M, a, r, th, ph, nstat) ELSE Zero4),
         Add4(IF "gsm" \in set THEN CoField(cg, a, r, th, ph) ELSE Zero4,
              IF "sm" \in set THEN CoField(cs, a, r, th, ph) ELSE Zero4))
None == [s \in {} |-> <<>>]
CoG(M, SG, t, set) == IF "gsm" \in set THEN GsmCo(M, SG, t, "all", -1) ELSE None
CoS(M, SS, t, set, rce, rci) == IF "sm" \in set THEN SmCo(M, SS, t, "all", -1, rce, rci) ELSE None
Total(M, SG, SS, a, t, r, th, ph, set, nstat, rce, rci) ==
    TotalCo(M, TLCEval(CoG(M, SG, t, set)), TLCEval(CoS(M, SS, t, set, rce, rci)), a, t, r, th, ph, set, nstat)
HasPart(M, s) == CASE s = "tdep" -> M.tdep # <<>> [] s = "static" -> M.stat # <<>>
                   [] s = "gsm" -> M.gsm # <<>> [] s = "sm" -> M.sm # <<>>
=============================================================================
