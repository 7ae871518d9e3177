---------------------------- MODULE Trace_Rotation ----------------------------
(* Coefficient rotations, spherical harmonic analysis, Fourier-synthesised    *)
(* rotations and induction responses judged against Rotation and Induction.   *)
EXTENDS Rotation, Induction, Fourier, TraceBase

T9 == Eps(9)
T8 == Eps(8)
Verdict(c, name) == IF c THEN "ok" ELSE name
MaxI(a, b) == IF a > b THEN a ELSE b
LeadSh(a) == SubSeq(a.shape, 1, Len(a.shape)-1)
Vec3(a, p) == SubSeq(a.data, 3*p + 1, 3*p + 3)
Dim(n) == n*(n+2)

\* ---- rotate_gauss ----------------------------------------------------------
MatNear(data, off, D1, D2, Bl, tol) ==
    \A i \in 1..D1 : \A j \in 1..D2 : Near(data[off + (i-1)*D2 + j], MatAt(Bl, i, j), tol)
JudgeRG(e) ==
    LET sh == LeadSh(e.b1) D1 == Dim(e.nmax) D2 == Dim(e.kmax)
        G(p) == LET Bl == TLCEval(Blocks(<<Vec3(e.b1, p), Vec3(e.b2, p), Vec3(e.b3, p)>>,
                                         MaxI(e.nmax, e.kmax))) IN
                MatNear(e.out.data, p*D1*D2, D1, D2, Bl, T9)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # sh \o <<D1, D2>> THEN "shape"
       ELSE Verdict(\A p \in 0..(Size(sh)-1) : G(p), "rotation-matrix")

\* ---- sh_analysis: the function is the expansion of e.co --------------------
JudgeSH(e) ==
    LET D == Dim(e.nmax) IN
    IF IsExc(e) THEN "valid-call-rejected"
    ELSE IF e.out.shape # <<D>> THEN "shape"
    ELSE Verdict(\A i \in 1..D : Near(e.out.data[i], IF i <= Len(e.co) THEN e.co[i] ELSE F0,
                    FMul(T9, FMax(F1, FMaxAbs(e.co)))), "analysis")

\* ---- Fourier synthesis -----------------------------------------------------
JudgeSyn(e) ==
    LET K == e.spec.shape[1] S == e.spec.shape[2] * e.spec.shape[3]
        G(p) == LET t == e.time.data[p] IN
                \A q \in 1..S : LET v == Synth(e, t, q) IN
                    Near(e.out.data[(p-1)*S + q], v[1], v[2])
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # e.time.shape \o <<e.spec.shape[2], e.spec.shape[3]>> THEN "shape"
       ELSE Verdict(\A p \in 1..Len(e.time.data) : G(p), "synthesis")

\* ---- rotate_gauss_fft --------------------------------------------------------
DipDir(e) == DipOfCoeffs(e.dip)
FrameT(e, t) == Frame(e.ref, SunDir(t), DipDir(e))
SampleT(e, j) == FAdd(e.start, FDivI(FMulI(e.step, j), 24))
\* synthesis at the sample times gives back the rotation at those times
JudgeFSyn(e) ==
    LET D1 == Dim(e.nmax) D2 == Dim(e.kmax)
        G(p) == LET Bl == TLCEval(Blocks(FrameT(e, SampleT(e, e.idx[p])), MaxI(e.nmax, e.kmax))) IN
                MatNear(e.out.data, (p-1)*D1*D2, D1, D2, Bl, FMulI(T9, 2))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # <<Len(e.idx), D1, D2>> THEN "shape"
       ELSE Verdict(\A p \in 1..Len(e.idx) : G(p), "samples-not-reproduced")

\* one Q-response: a rational test function of frequency and index, or the layered Earth
QGiven(e, k, i) ==                    \* (1 + i/2) / (1 + i 2e4 f)
    LET f == FDiv(FDivI(F(k), e.N), FMulI(e.step, 3600)) IN
    CDiv(CR(FAdd(F1, FQ(i-1, 2))), <<F1, FMulI(f, 20000)>>)
QEarth(e, k, n) == IF k = 0 THEN C0
    ELSE LET T == FMul(FDivI(FMulI(FMulI(e.step, 3600), e.N), k), F1) IN
         QResp(n, QuadY(n, OmegaMu(T), e.sigma, e.rad))
RECURSIVE DftRec(_, _, _, _, _, _, _, _)
DftRec(M, i, j, k, N, tr, m, acc) ==
    IF m >= N THEN acc
    ELSE DftRec(M, i, j, k, N, tr, m+1,
         LET w == tr[((m*k) % N) + 1] x == MatAt(M[m+1], i, j) IN
         <<FAdd(acc[1], FMul(x, w[2])), FSub(acc[2], FMul(x, w[1]))>>)
\* kept terms against the full list X[1..L] (frequency index 0..L-1): each term is one of
\* the list, all different, and nothing dropped is larger than something kept
Kept(e, fr, sp, i, j, X, L) ==
    LET D1 == Dim(e.nmax) D2 == Dim(e.kmax)
        Pos(f) == (f-1)*D1*D2 + (i-1)*D2 + j
        Ix(f) == FFloor(FAdd(FDivI(FMul(fr.data[Pos(f)], FMulI(e.step, e.N)), 24), FQ(1, 2)))
        ix == TLCEval([f \in 1..e.filter |-> Ix(f)])
        ab == TLCEval([k \in 1..L |-> CAbs(X[k])])
        kept == {ix[f] : f \in 1..e.filter}
    IN /\ \A f \in 1..e.filter :
            /\ ix[f] >= 0 /\ ix[f] < L
            /\ Near(FMul(fr.data[Pos(f)], FMulI(e.step, e.N)), F(24 * ix[f]), FMulI(Eps(11), 1 + ix[f]))
            /\ LET w == IF e.scaled /\ ix[f] > 0 THEN 2 ELSE 1 IN
               CNear(<<sp.re[Pos(f)], sp.im[Pos(f)]>>, CMulI(X[ix[f]+1], w), FMulI(T9, 2))
       /\ Len(ix) = e.filter /\ \A f, g \in 1..e.filter : f # g => ix[f] # ix[g]
       /\ \A k \in 1..L : (k-1) \in kept \/ \A f \in 1..e.filter : FLe(ab[k], FAdd(ab[ix[f]+1], T9))
JudgeFFT(e) ==
    LET D1 == Dim(e.nmax) D2 == Dim(e.kmax) L == (e.N \div 2) + 1
        sh == <<e.filter, D1, D2>>
        M == TLCEval([m \in 1..e.N |-> TLCEval(Blocks(FrameT(e, SampleT(e, m-1)), MaxI(e.nmax, e.kmax)))])
        tr == TLCEval([m \in 1..e.N |-> TLCEval(FSinCos(FDivI(FMulI(FTwoPi, m-1), e.N)))])
        q == TLCEval([k \in 1..L |-> TLCEval([n \in 1..(IF e.q = "given" THEN D1 ELSE e.nmax) |->
                IF e.q = "given" THEN QGiven(e, k-1, n) ELSE QEarth(e, k-1, n)])])
        Qr(k, i) == IF e.q = "given" THEN q[k][i] ELSE q[k][IdxTab[i][1]]
        G(i, j) == LET X == TLCEval([k \in 1..L |->
                              CDivI(DftRec(M, i, j, k-1, e.N, tr, 0, C0), e.N)])
                       Y == TLCEval([k \in 1..L |-> CMul(X[k], Qr(k, i))])
                   IN IF ~Kept(e, e.out.f, e.out.s, i, j, X, L) THEN 1
                      ELSE IF ~Kept(e, e.out.fi, e.out.si, i, j, Y, L) THEN 2 ELSE 0
    IN IF e.bad THEN Verdict(IsExc(e) /\ e.out.value_error, "unknown-reference-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF \E a \in {e.out.f.shape, e.out.s.shape, e.out.fi.shape, e.out.si.shape} : a # sh THEN "shape"
       ELSE IF e.saved /\ ~(/\ e.npz.f = e.out.f /\ e.npz.s = e.out.s /\ e.npz.fi = e.out.fi
                            /\ e.npz.si = e.out.si
                            /\ e.npz.step = e.step /\ e.npz.N = e.N /\ e.npz.filter = e.filter
                            /\ e.npz.reference = e.ref /\ e.npz.scaled = e.scaled
                            /\ e.npz.dipole = e.dip /\ e.npz.start = e.start) THEN "file-differs"
       ELSE LET v == {G(i, j) : i \in 1..D1, j \in 1..D2} IN
            IF 1 \in v THEN "spectrum" ELSE IF 2 \in v THEN "induced-spectrum" ELSE "ok"

\* ---- induction -----------------------------------------------------------------
RelNear(z, v, tol) == CNear(z, v, FAdd(FMul(tol, CAbs(v)), Eps(16)))
JudgeQ1(e) ==
    LET K == Len(e.per.data)
        Y(p) == LET om == OmegaMu(e.per.data[p]) IN
                IF e.kind = "quadratic" THEN QuadY(e.n, om, e.sigma, e.rad)
                ELSE ConstY(e.n, om, e.sigma, e.rad)
        G(p) == LET om == OmegaMu(e.per.data[p])
                    y == TLCEval(Y(p))
                    c == TLCEval(CResp(e.rad[1], y))
                    q == QResp(e.n, y)
                    oc == <<e.out.c.re[p], e.out.c.im[p]>> oq == <<e.out.q.re[p], e.out.q.im[p]>>
                IN IF ~(IsFin(oc[1]) /\ IsFin(oc[2]) /\ IsFin(oq[1]) /\ IsFin(oq[2])) THEN "not-finite"
                   ELSE IF ~RelNear(oc, c, e.tol) THEN "c-response"
                   ELSE IF ~CNear(oq, q, FMulI(e.tol, 10)) THEN "q-response"
                   ELSE IF ~(/\ FLe(CAbs(oq), FAdd(FQ(e.n, e.n+1), FMulI(e.tol, 10)))
                             /\ FLe(FNeg(FMulI(e.tol, 10)), oq[1])) THEN "bounds"
                   ELSE IF ~NearRel(e.out.rho.data[p], RhoA(om, c), FMulI(e.tol, 10), RhoA(om, c)) THEN "resistivity"
                   ELSE IF ~Near(e.out.phi.data[p], PhaseD(c), FQ(1, 100)) THEN "phase"
                   ELSE "ok"
        vs == {G(p) : p \in 1..K}
    IN IF e.bad THEN Verdict(IsExc(e) /\ e.out.value_error, "bad-argument-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF \E a \in {e.out.c.shape, e.out.q.shape, e.out.rho.shape, e.out.phi.shape} : a # e.shape
            THEN "shape"
       ELSE IF vs \subseteq {"ok"} THEN "ok" ELSE CHOOSE v \in vs : v # "ok"
\* q_response(frequency, nmax) of the configured conductivity file
JudgeQR(e) ==
    LET K == Len(e.freq.data)
        G(n, p) == LET f == e.freq.data[p] x == (n-1)*K + p
                       o == <<e.out.re[x], e.out.im[x]>> IN
            IF ~FLt(F0, f) THEN o = C0
            ELSE CNear(o, QResp(n, QuadY(n, OmegaMu(FDiv(F1, f)), e.sigma, e.rad)), T8)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # <<e.nmax, K>> THEN "shape"
       ELSE Verdict(\A n \in 1..e.nmax : \A p \in 1..K : G(n, p), "q-response")

JudgeR(e) == CASE e.op = "rg" -> JudgeRG(e)
              [] e.op = "sh" -> JudgeSH(e)
              [] e.op = "syn" -> JudgeSyn(e)
              [] e.op = "fsyn" -> JudgeFSyn(e)
              [] e.op = "fft" -> JudgeFFT(e)
              [] e.op = "q1" -> JudgeQ1(e)
              [] e.op = "qr" -> JudgeQR(e)
=============================================================================
