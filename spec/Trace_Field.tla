----------------------------- MODULE Trace_Field -----------------------------
(* Synthesis of field components, design matrices, Legendre functions and    *)
(* spectra, judged against Harmonics, PiecewisePoly, BSpline and Spectrum.    *)
EXTENDS Spectrum, BSpline, TraceBase

FTol(scale) == FAdd(FMul(scale, Eps(10)), Eps(13))
F180 == F(180)
InLat(x) == IsFin(x) /\ FLe(F0, x) /\ FLe(x, F180)
IsPole(x) == x = F0 \/ x = F180
\* missing (NaN) positions do not hide the others
AllIn(s) == \A i \in 1..Len(s) : IsNaN(s[i]) \/ InLat(s[i])
SomePole(s) == \E i \in 1..Len(s) : IsPole(s[i])

\* grid = outer product of theta and phi
GridTh(sh) == Append(sh, 1)
GridPh(sh) == SubSeq(sh, 1, Len(sh)-1) \o <<1>> \o <<sh[Len(sh)]>>

\* shapes of (coefficient grid, radius, theta, phi) broadcast together
Broad4(a, b, c, d) == BroadcastOk(a, b) /\ BroadcastOk(Broadcast(a, b), c)
                      /\ BroadcastOk(Broadcast(Broadcast(a, b), c), d)
Shape4(a, b, c, d) == Broadcast(Broadcast(Broadcast(a, b), c), d)

Given(x) == x # -9                  \* -9 stands for an argument left out

\* effective <<nmin, nmax, mmax>> for `dim` coefficients; nmax < nmin: nothing to compute
EffWindow(nmin, nmax, mmax, dim) ==
    LET lo == IF Given(nmin) THEN nmin ELSE 1 IN
    IF lo < 1 THEN <<lo, lo-1, 0>>
    ELSE LET hi == IF Given(nmax) THEN nmax
                   ELSE InferNmax(lo, IF Given(mmax) THEN mmax ELSE -1, dim)
         IN <<lo, hi, IF Given(mmax) THEN mmax ELSE hi>>

\* coefficient grid shape / values: literal array or model evaluated in time
CoShape(e) == IF e.m = 0 THEN SubSeq(e.co.shape, 1, Len(e.co.shape)-1) ELSE e.time.shape
CoDim(e) == IF e.m = 0 THEN e.co.shape[Len(e.co.shape)] ELSE PpDim(Defs[e.m])
\* <<values of the first D coefficients, their scales>> at grid index mi
CoVec(e, mi, D) ==
    LET f == BFlat(mi, CoShape(e)) IN
    IF e.m = 0 THEN LET M == CoDim(e) IN
         [i \in 1..D |-> <<e.co.data[f*M + i], FAbs(e.co.data[f*M + i])>>]
    ELSE LET t == e.time.data[f+1] IN
         [i \in 1..D |-> Coefficient(Defs[e.m], i, t, e.ext, e.nu)]

\* scale of the result: sum of |c| (n+1) rad
RECURSIVE ScaleRec(_, _, _, _, _, _)
ScaleRec(pt, src, win, cv, i, acc) ==
    IF i > Len(win) THEN acc
    ELSE LET n == win[i][1] rad == IF src = "internal" THEN pt.rin[n+3] ELSE pt.rex[n] IN
         ScaleRec(pt, src, win, cv, i+1,
                  FAdd(acc, FMulI(FMul(FMax(cv[i][2], FAbs(cv[i][1])), rad), n+1)))

ModelWindow(e) == LET N == InferNmax(1, -1, CoDim(e)) IN
    IF Given(e.nmax) /\ e.nmax < N THEN <<1, e.nmax, e.nmax>> ELSE <<1, N, N>>
TooLarge(e) == e.m # 0 /\ Given(e.nmax) /\ e.nmax > InferNmax(1, -1, CoDim(e))

\* some time is outside of the model (bare breaks, `mute`: NaN without a warning)
OutTime(e) == e.m # 0 /\ ~e.mute /\ \E i \in 1..Len(e.time.data) : Outside(Defs[e.m], e.time.data[i])

NanOrNear(x, v, tol) == IF IsNaN(v) THEN IsNaN(x) ELSE Near(x, v, tol)

FieldAt(e, w, win, mi, ths, phs, p) ==
    LET r == BAt(e.r, mi)
        th == e.th.data[BFlat(mi, ths) + 1]
        ph == e.ph.data[BFlat(mi, phs) + 1]
        missing == IsNaN(r) \/ IsNaN(th) \/ IsNaN(ph)
        pt == TLCEval(PointTables(e.a, r, th, ph, w[2]))
        cv == TLCEval(CoVec(e, mi, Len(win)))
        isnan == \E i \in 1..Len(win) : IsNaN(cv[i][1])
    IN IF missing THEN TRUE
       ELSE IF isnan THEN IsNaN(e.out.r.data[p+1]) /\ IsNaN(e.out.t.data[p+1]) /\ IsNaN(e.out.p.data[p+1])
       ELSE LET f == TLCEval(Field(pt, e.src, win, [i \in 1..Len(win) |-> cv[i][1]]))
                tol == FTol(ScaleRec(pt, e.src, win, cv, 1, F0))
            IN /\ Near(e.out.r.data[p+1], f[1], tol)
               /\ Near(e.out.t.data[p+1], f[2], tol)
               /\ Near(e.out.p.data[p+1], f[3], tol)

JudgeField(e) ==
    LET ths == IF e.grid THEN GridTh(e.th.shape) ELSE e.th.shape
        phs == IF e.grid THEN GridPh(e.ph.shape) ELSE e.ph.shape
        w == IF e.m = 0 THEN EffWindow(e.nmin, e.nmax, e.mmax, CoDim(e)) ELSE ModelWindow(e)
        wbad == w[2] < w[1] \/ WindowDim(w[1], w[2], w[3]) > CoDim(e)
        \* nmax left out, mmax beyond the degree of the coefficients: not documented, may be rejected
        beyond == e.m = 0 /\ Given(e.mmax) /\ ~Given(e.nmax) /\ e.mmax > w[2]
        srcbad == ~(e.src \in {"internal", "external"})
        latbad == ~AllIn(e.th.data)
        shbad == ~Broad4(CoShape(e), e.r.shape, ths, phs)
    IN IF ~e.same THEN "input-modified"
       ELSE IF wbad THEN IF IsExc(e) THEN "ok" ELSE "impossible-window-accepted"
       ELSE IF latbad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "colatitude-out-of-bounds-accepted"
       ELSE IF shbad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "incompatible-shapes-accepted"
       ELSE IF srcbad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "unknown-source-accepted"
       ELSE IF IsExc(e) THEN IF beyond THEN "ok" ELSE "valid-call-rejected"
       ELSE IF SomePole(e.th.data) /\ ~e.warned THEN "no-pole-warning"
       ELSE IF TooLarge(e) /\ ~e.warned THEN "no-nmax-warning"
       ELSE IF OutTime(e) /\ ~e.warned THEN "no-warning-outside"
       ELSE IF e.warned /\ ~(SomePole(e.th.data) \/ TooLarge(e) \/ OutTime(e)) THEN "warning-without-cause"
       ELSE LET sh == Shape4(CoShape(e), e.r.shape, ths, phs)
                win == TLCEval(Window(w[1], w[2], w[3])) IN
            IF e.out.r.shape # sh \/ e.out.t.shape # sh \/ e.out.p.shape # sh THEN "shape"
            ELSE IF \A p \in 0..(Size(sh)-1) : FieldAt(e, w, win, Unravel(p, sh), ths, phs, p)
                 THEN "ok" ELSE "field-values"

\* rows of unit fields; nmax required
JudgeDesign(e) ==
    LET w == EffWindow(e.nmin, e.nmax, IF Given(e.mmax) THEN e.mmax ELSE e.nmax, 0)
        wbad == w[2] < w[1] \/ w[2] < 1 \/ w[3] < 0 \/ w[3] > w[2]
        srcbad == ~(e.src \in {"internal", "external"})
        shbad == ~Broad4(<<>>, e.r.shape, e.th.shape, e.ph.shape)
    IN IF ~e.same THEN "input-modified"
       ELSE IF wbad THEN IF IsExc(e) THEN "ok" ELSE "impossible-window-accepted"
       ELSE IF ~AllIn(e.th.data) THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "colatitude-out-of-bounds-accepted"
       ELSE IF shbad \/ srcbad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "bad-argument-accepted"
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF SomePole(e.th.data) # e.warned THEN "pole-warning"
       ELSE LET sh == Shape4(<<>>, e.r.shape, e.th.shape, e.ph.shape)
                win == TLCEval(Window(w[1], w[2], w[3]))
                M == Len(win)
                Good(p) == LET mi == Unravel(p, sh)
                               pt == TLCEval(PointTables(e.a, BAt(e.r, mi), BAt(e.th, mi), BAt(e.ph, mi), w[2])) IN
                    (IsNaN(BAt(e.r, mi)) \/ IsNaN(BAt(e.th, mi)) \/ IsNaN(BAt(e.ph, mi))) \/
                    \A i \in 1..M :
                        LET u == UnitField(pt, e.src, win[i])
                            n == win[i][1]
                            tol == FTol(FMulI(IF e.src = "internal" THEN pt.rin[n+3] ELSE pt.rex[n], n+1))
                        IN /\ Near(e.out.r.data[p*M + i], u[1], tol)
                           /\ Near(e.out.t.data[p*M + i], u[2], tol)
                           /\ Near(e.out.p.data[p*M + i], u[3], tol)
            IN IF e.out.r.shape # Append(sh, M) \/ e.out.t.shape # Append(sh, M)
                  \/ e.out.p.shape # Append(sh, M) THEN "shape"
               ELSE IF \A p \in 0..(Size(sh)-1) : Good(p) THEN "ok" ELSE "design-values"

\* design_matrix: spline-major columns, then static columns
JudgeDM(e) ==
    LET nt == e.ntdep ns == IF Given(e.nstat) THEN e.nstat ELSE e.ntdep
        NB == NBasis(e.kn, e.k)
        ct == nt*(nt+2) cs == ns*(ns+2)
        cols == NB*ct + cs - ct
        npts == Len(e.time.data)
    IN IF ns < nt THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "static-degree-accepted"
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF \E x \in {e.out.r.shape, e.out.t.shape, e.out.p.shape} : x # <<npts, cols>> THEN "shape"
       ELSE LET win == TLCEval(Window(1, ns, ns))
                Good(p) ==
                  LET pt == TLCEval(PointTables(e.a, e.r.data[p], e.th.data[p], e.ph.data[p], ns))
                      row == TLCEval(Row(e.kn, e.k, e.time.data[p], 0))
                  IN \A i \in 1..cs :
                       LET u == TLCEval(UnitField(pt, e.src, win[i]))
                           n == win[i][1]
                           tol == FTol(FMulI(IF e.src = "internal" THEN pt.rin[n+3] ELSE pt.rex[n], n+1))
                           At(a, c) == a.data[(p-1)*cols + c]
                       IN IF i <= ct
                          THEN \A j \in 1..NB :
                                 LET c == (i-1)*NB + j IN
                                 /\ Near(At(e.out.r, c), FMul(u[1], row[j]), tol)
                                 /\ Near(At(e.out.t, c), FMul(u[2], row[j]), tol)
                                 /\ Near(At(e.out.p, c), FMul(u[3], row[j]), tol)
                          ELSE LET c == NB*ct + i - ct IN
                               /\ Near(At(e.out.r, c), u[1], tol)
                               /\ Near(At(e.out.t, c), u[2], tol)
                               /\ Near(At(e.out.p, c), u[3], tol)
            IN IF \A p \in 1..npts : Good(p) THEN "ok" ELSE "design-matrix-values"

\* legendre_poly: out shape (nmax+1, nmax+2) + theta shape
JudgeLegendre(e) ==
    LET N == e.nmax S == Len(e.th.data)
        At(i, j, p) == e.out.data[(i*(N+2) + j)*S + p]
        Good(p) == LET sc == FSinCosD(e.th.data[p])
                       T == TLCEval(PTable(sc[1], sc[2], N+1)) IN
           \A n \in 1..N : \A m \in 0..n :
              /\ Near(At(n, m, p), TabAt(T, n, m), Eps(10))
              /\ Near(At(m, n+1, p), DP(T, n, m), FMulI(Eps(10), n))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # <<N+1, N+2>> \o e.th.shape THEN "shape"
       ELSE IF \A p \in 1..S : Good(p) /\ Near(At(0, 0, p), F1, Eps(12)) THEN "ok" ELSE "legendre-values"

\* ---- spectra -------------------------------------------------------------
\* e.co array, axis (0-based, normalised by the harness from the documented convention)
JudgeSpectrum(e) ==
    LET dim == e.co.shape[e.axis + 1]
        N == InferNmax(1, -1, dim)
        nm == IF Given(e.nmax) /\ e.nmax < N THEN e.nmax ELSE N
        sh == [i \in 1..Len(e.co.shape) |-> IF i = e.axis+1 THEN nm ELSE e.co.shape[i]]
        rho == IF e.hasr THEN FDiv(e.a, e.r) ELSE F1
        inv == IF e.hasr THEN FDiv(e.r, e.a) ELSE F1
        Vec(mi, n) == [k \in 1..(2*n+1) |->
              LET mj == [mi EXCEPT ![e.axis+1] = n*n - 1 + k - 1] IN
              e.co.data[BFlat(mj, e.co.shape) + 1]]
        Good(p) == LET mi == Unravel(p, sh) n == mi[e.axis+1] + 1
                       vec == Vec(mi, n)
                   IN IF \E k \in DOMAIN vec : IsNaN(vec[k]) THEN IsNaN(e.out.data[p+1])
                      ELSE LET v == SpecDegree(e.src, n, rho, inv, vec) IN Near(e.out.data[p+1], v, FTol(v))
    IN IF ~(e.src \in {"internal", "external", "toroidal"})
       THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "unknown-source-accepted"
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # sh THEN "shape"
       ELSE IF \A p \in 0..(Size(sh)-1) : Good(p) THEN "ok" ELSE "spectrum-values"

\* spectrum of a model at times: out shape time + (nmax)
JudgeMSpectrum(e) ==
    LET m == Defs[e.m] N == InferNmax(1, -1, PpDim(m))
        nm == IF Given(e.nmax) /\ e.nmax < N THEN e.nmax ELSE N
        rho == FDiv(e.a, e.r) inv == FDiv(e.r, e.a)
        Good(j) == \A n \in 1..nm :
            LET vec == [k \in 1..(2*n+1) |-> Coefficient(m, n*n-1+k, e.time.data[j], e.ext, e.nu)]
                v == SpecDegree(e.src, n, rho, inv, [k \in 1..(2*n+1) |-> vec[k][1]])
                s == SpecDegree(e.src, n, rho, inv, [k \in 1..(2*n+1) |-> vec[k][2]])
            IN Near(e.out.data[(j-1)*nm + n], v, FTol(s))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # Append(e.time.shape, nm) THEN "shape"
       ELSE IF \A j \in 1..Len(e.time.data) : Good(j) THEN "ok" ELSE "spectrum-values"

JudgeCorr(e) ==
    IF e.bad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "mismatch-accepted"
    ELSE IF IsExc(e) THEN "valid-call-rejected"
    ELSE LET N == InferNmax(1, -1, Len(e.x)) IN
    IF e.out.shape # <<N>> THEN "shape"
    ELSE IF \A n \in 1..N : LET v == DegreeCorr(n, e.x, e.y) IN
              /\ NanOrNear(e.out.data[n], v, Eps(10))
              /\ IsNaN(v) \/ FLe(FAbs(e.out.data[n]), FAdd(F1, Eps(12)))
         THEN "ok" ELSE "correlation-values"
JudgeSens(e) ==
    IF e.bad THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "mismatch-accepted"
    ELSE IF IsExc(e) THEN "valid-call-rejected"
    ELSE IF ~e.same THEN "input-modified"
    ELSE IF e.out.shape # <<Len(e.x)>> THEN "shape"
    ELSE IF \A i \in 1..Len(e.x) : LET v == Sensitivity(i, e.x, e.y) IN
              NanOrNear(e.out.data[i], v[1], FTol(v[2]))
         THEN "ok" ELSE "sensitivity-values"

JudgeF(e) == CASE e.op = "field" -> JudgeField(e)
               [] e.op = "design" -> JudgeDesign(e)
               [] e.op = "dm" -> JudgeDM(e)
               [] e.op = "legendre" -> JudgeLegendre(e)
               [] e.op = "spectrum" -> JudgeSpectrum(e)
               [] e.op = "mspectrum" -> JudgeMSpectrum(e)
               [] e.op = "corr" -> JudgeCorr(e)
               [] e.op = "sens" -> JudgeSens(e)
=============================================================================
