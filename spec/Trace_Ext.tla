------------------------------ MODULE Trace_Ext ------------------------------
(* Magnetospheric coefficients and fields of CHAOS models and the sum over    *)
(* sources, judged against ExtField.                                          *)
EXTENDS ExtField, TraceBase

Verdict(c, name) == IF c THEN "ok" ELSE name
GridTh(sh) == Append(sh, 1)
GridPh(sh) == SubSeq(sh, 1, Len(sh)-1) \o <<1>> \o <<sh[Len(sh)]>>
Broad4(a, b, c, d) == BroadcastOk(a, b) /\ BroadcastOk(Broadcast(a, b), c)
                      /\ BroadcastOk(Broadcast(Broadcast(a, b), c), d)
Shape4(a, b, c, d) == Broadcast(Broadcast(Broadcast(a, b), c), d)
MaxF(a, b) == IF FLt(a, b) THEN b ELSE a
MinF(a, b) == IF FLt(b, a) THEN b ELSE a
\* missing (NaN) times do not hide the others
AnyOut(ts, a, b) == \E i \in 1..Len(ts) : ~IsNaN(ts[i]) /\ (FLt(ts[i], a) \/ FLt(b, ts[i]))
Ends(pp) == <<pp.br[1], pp.br[Len(pp.br)]>>
\* documented periods of the model parts
OutGsm(M, ts) == LET p == IF M.stat # <<>> THEN M.stat ELSE M.tdep IN
                 p # <<>> /\ AnyOut(ts, Ends(p[1])[1], Ends(p[1])[2])
OutSm(M, ts) == AnyOut(ts, MaxF(Ends(M.dl[1])[1], MaxF(Ends(M.dl[2])[1], Ends(M.dl[3])[1])),
                           MinF(Ends(M.dl[1])[2], MinF(Ends(M.dl[2])[2], Ends(M.dl[3])[2])))
XOut(e, M) == IF e.part = "gsm" THEN OutGsm(M, e.time.data) ELSE OutSm(M, e.time.data)
Mod(e) == Defs[e.m]
RcMissing(rc, e) == rc = <<>> /\ e.rcd # 0 /\ \E i \in 1..Len(e.time.data) :
        ~IsNaN(e.time.data[i]) /\ ~RCInside(Defs[e.rcd], e.time.data[i])
\* index at element f (0-based) of the time array
RcAt(rc, e, which, f) ==
    IF rc = <<>> THEN RCVal(Defs[e.rcd], IF which = "e" THEN Defs[e.rcd].e ELSE Defs[e.rcd].i, e.time.data[f+1])
    ELSE BAt(rc[1], Unravel(f, e.time.shape))

\* ---- coefficients ----------------------------------------------------------
JudgeXC(e) ==
    LET M == Mod(e)
        have == HasPart(M, e.part)
        N == IF ~have THEN 0 ELSE IF e.part = "gsm" THEN GsmCut(M, e.nmax) ELSE SmCut(M, e.nmax)
        n0 == IF ~have THEN 0 ELSE NDeg(Len(IF e.part = "gsm" THEN M.gsm ELSE M.sm))
        D == N*(N+2)
        S == Defs[e.s]
        V(f, i) == IF e.part = "gsm" THEN GsmCoeff(M, S, e.time.data[f+1], e.src, i)
                   ELSE SmCoeff(M, S, e.time.data[f+1], e.src,
                                RcAt(e.rc, e, IF e.src = "external" THEN "e" ELSE "i", f), i)
    IN IF ~have THEN Verdict(IsExc(e) /\ e.out.value_error, "missing-part-accepted")
       ELSE IF S.dip # e.dip THEN Verdict(IsExc(e), "wrong-dipole-accepted")
       ELSE IF ~(e.src \in {"external", "internal"}) THEN Verdict(IsExc(e), "unknown-source-accepted")
       ELSE IF e.part = "sm" /\ RcMissing(e.rc, e) THEN
            Verdict(IsExc(e) /\ e.out.value_error, "outside-index-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF ~e.same THEN "input-modified"
       ELSE IF e.out.shape # Append(e.time.shape, D) THEN "shape"
       ELSE IF e.nmax > n0 /\ ~e.warned THEN "no-nmax-warning"
       ELSE IF ~e.warned /\ XOut(e, M) THEN "no-period-warning"
       ELSE IF e.warned /\ ~XOut(e, M) /\ e.nmax <= n0 THEN "warning-without-cause"
       ELSE Verdict(\A f \in 0..(Size(e.time.shape)-1) : \A i \in 1..D :
                        IF IsNaN(e.time.data[f+1]) THEN IsNaN(e.out.data[f*D + i])
                        ELSE LET v == V(f, i) IN Near(e.out.data[f*D + i], v[1], v[2]), "coefficients")

\* ---- fields ------------------------------------------------------------------
\* element p of the broadcast result against v = <<Br, Bt, Bp, tolerance>>
Near4(e, p, v) == /\ Near(e.out.r.data[p+1], v[1], v[4])
                  /\ Near(e.out.t.data[p+1], v[2], v[4])
                  /\ Near(e.out.p.data[p+1], v[3], v[4])
Shapes(e, sh) == e.out.r.shape = sh /\ e.out.t.shape = sh /\ e.out.p.shape = sh

\* a missing position or time: nothing is known of the field if the time is missing
MissAt(e, p, t) == IsNaN(t) => /\ IsNaN(e.out.r.data[p+1]) /\ IsNaN(e.out.t.data[p+1])
                                /\ IsNaN(e.out.p.data[p+1])

JudgeXV(e) ==
    LET M == Mod(e)
        S == Defs[e.s]
        ths == IF e.grid THEN GridTh(e.th.shape) ELSE e.th.shape
        phs == IF e.grid THEN GridPh(e.ph.shape) ELSE e.ph.shape
        sh == Shape4(e.time.shape, e.r.shape, ths, phs)
        T == Len(e.time.data)
        Co(f) == IF e.part = "gsm" THEN GsmCo(M, S, e.time.data[f], e.src, e.nmax)
                 ELSE SmCo(M, S, e.time.data[f], e.src, e.nmax,
                            IF e.src = "internal" THEN F0 ELSE RcAt(e.rce, e, "e", f-1),
                            IF e.src = "external" THEN F0 ELSE RcAt(e.rci, e, "i", f-1))
        Miss(mi) == IsNaN(e.time.data[BFlat(mi, e.time.shape) + 1]) \/ IsNaN(BAt(e.r, mi))
                    \/ IsNaN(e.th.data[BFlat(mi, ths) + 1]) \/ IsNaN(e.ph.data[BFlat(mi, phs) + 1])
        G(p, co) == LET mi == Unravel(p, sh) IN
                IF Miss(mi) THEN MissAt(e, p, e.time.data[BFlat(mi, e.time.shape) + 1])
                ELSE Near4(e, p, TLCEval(CoField(co[BFlat(mi, e.time.shape) + 1], e.a, BAt(e.r, mi),
                     e.th.data[BFlat(mi, ths) + 1], e.ph.data[BFlat(mi, phs) + 1])))
        needE == e.part = "sm" /\ e.src # "internal"
        needI == e.part = "sm" /\ e.src # "external"
    IN IF ~HasPart(M, e.part) THEN Verdict(IsExc(e) /\ e.out.value_error, "missing-part-accepted")
       ELSE IF S.dip # e.dip THEN Verdict(IsExc(e), "wrong-dipole-accepted")
       ELSE IF ~(e.src \in {"all", "external", "internal"})
            THEN Verdict(IsExc(e) /\ e.out.value_error, "unknown-source-accepted")
       ELSE IF (needE /\ RcMissing(e.rce, e)) \/ (needI /\ RcMissing(e.rci, e))
            THEN Verdict(IsExc(e) /\ e.out.value_error, "outside-index-accepted")
       ELSE IF ~Broad4(e.time.shape, e.r.shape, ths, phs)
            THEN Verdict(IsExc(e) /\ e.out.value_error, "incompatible-shapes-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF ~e.same THEN "input-modified"
       ELSE IF ~Shapes(e, sh) THEN "shape"
       ELSE LET co == TLCEval([f \in 1..T |-> IF IsNaN(e.time.data[f]) THEN None ELSE TLCEval(Co(f))]) IN
            Verdict(\A p \in 0..(Size(sh)-1) : G(p, co), "field-values")

\* ---- the model call ------------------------------------------------------------
SetOf(s) == {s[i] : i \in 1..Len(s)}
JudgeCall(e) ==
    LET M == Mod(e)
        set == SetOf(e.set)
        sh == Shape4(e.time.shape, e.r.shape, e.th.shape, e.ph.shape)
        sm == "sm" \in set
        T == Len(e.time.data)
        CG(f) == CoG(M, Defs[e.s], e.time.data[f], set)
        CS(f) == CoS(M, Defs[e.s2], e.time.data[f], set,
                     IF sm THEN RcAt(e.rce, e, "e", f-1) ELSE F0, IF sm THEN RcAt(e.rci, e, "i", f-1) ELSE F0)
        G(p, cg, cs) == LET mi == Unravel(p, sh) f == BFlat(mi, e.time.shape) + 1 IN
            IF IsNaN(e.time.data[f]) \/ IsNaN(BAt(e.r, mi)) \/ IsNaN(BAt(e.th, mi)) \/ IsNaN(BAt(e.ph, mi))
            THEN set \subseteq {"static"} \/ MissAt(e, p, e.time.data[f])
            ELSE Near4(e, p, TLCEval(TotalCo(M, cg[f], cs[f], e.a, e.time.data[f], BAt(e.r, mi), BAt(e.th, mi),
                  BAt(e.ph, mi), set, IF e.nstat < 0 THEN 85 ELSE e.nstat)))
    IN IF ~(set \subseteq Sources) THEN Verdict(IsExc(e) /\ e.out.value_error, "unknown-source-accepted")
       ELSE IF ~Broad4(e.time.shape, e.r.shape, e.th.shape, e.ph.shape)
            THEN Verdict(IsExc(e) /\ e.out.value_error, "incompatible-shapes-accepted")
       ELSE IF \E s \in set : ~HasPart(M, s) THEN Verdict(IsExc(e), "missing-part-accepted")
       ELSE IF "static" \in set /\ e.nstat = 0 THEN Verdict(IsExc(e), "no-degree-accepted")
       ELSE IF ("gsm" \in set /\ Defs[e.s].dip # e.dip) \/ (sm /\ Defs[e.s2].dip # e.dip)
            THEN Verdict(IsExc(e), "wrong-dipole-accepted")
       ELSE IF sm /\ (RcMissing(e.rce, e) \/ RcMissing(e.rci, e))
            THEN Verdict(IsExc(e) /\ e.out.value_error, "outside-index-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF ~e.same THEN "input-modified"
       ELSE IF ~Shapes(e, sh) THEN "shape"
       ELSE LET cg == TLCEval([f \in 1..T |-> IF IsNaN(e.time.data[f]) THEN None ELSE TLCEval(CG(f))])
                cs == TLCEval([f \in 1..T |-> IF IsNaN(e.time.data[f]) THEN None ELSE TLCEval(CS(f))])
            IN Verdict(\A p \in 0..(Size(sh)-1) : G(p, cg, cs), "sum-of-sources")

JudgeX(e) == CASE e.op = "xc" -> JudgeXC(e)
               [] e.op = "xv" -> JudgeXV(e)
               [] e.op = "call" -> JudgeCall(e)
=============================================================================
