----------------------------- MODULE Trace_Files -----------------------------
(* Files written and read by the code: SHC, MAT, RC-index and model files.    *)
EXTENDS ShcFile, ModelFiles, MatFile, RcStore, ExtField, TraceBase, FiniteSets

Verdict(c, name) == IF c THEN "ok" ELSE name
SetOf(s) == {s[i] : i \in 1..Len(s)}
Half8 == FAdd(FMulI(Eps(9), 5), Eps(13))                \* half a unit in the eighth decimal
NR(x, v) == Near(x, v, FAdd(FMul(FAbs(v), Eps(12)), Eps(13)))

\* ---- SHC: the file that was written ------------------------------------------
JudgeShcW(e) ==
    LET D == e.co.shape[Len(e.co.shape)]
        T == Len(e.times.data)
        nmin == IF e.nmin < 0 THEN 1 ELSE e.nmin
        nmax == IF e.nmax < 0 THEN InferNmax(1, -1, D) ELSE e.nmax
        order == IF e.order < 0 THEN 1 ELSE e.order
    IN IF nmin > nmax THEN Verdict(IsExc(e) /\ e.out.value_error, "empty-window-accepted")
       ELSE IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF ~e.same THEN "input-modified"
       ELSE IF ~e.out.intact THEN "not-a-table"
       ELSE LET L == TLCEval(DataLines(e.out.lines, {"#"})) IN
       IF ~WellFormed(L) THEN "malformed-file"
       ELSE IF <<Par(L, 1), Par(L, 2), Par(L, 3), Par(L, 4), Par(L, 5)>>
               # <<nmin, nmax, T, order, order - 1>> THEN "parameters"
       ELSE IF SubSeq(e.out.head, 1, Len(e.head)) # e.head THEN "header"
       ELSE IF ~ \A k \in 1..T : Near(ShcTimes(L)[k], MjdToDyear(e.times.data[k], e.leap), Half8)
            THEN "times"
       ELSE Verdict(\A i \in 1..ShcRows(L) : \A k \in 1..T :
                    LET v == e.co.data[(k-1)*D + nmin*nmin - 1 + i] IN
                    Near(ShcRow(L, i).v[k], v, FAdd(Half8, FMul(FAbs(v), Eps(15)))), "coefficients")

\* ---- SHC: the arrays that were read --------------------------------------------
JudgeShcR(e) ==
    LET L == TLCEval(DataLines(e.lines, SetOf(e.cs))) N == Par(L, 3) R == ShcRows(L) IN
    IF IsExc(e) THEN "valid-file-rejected"
    ELSE IF e.out.par # [k \in 1..5 |-> Par(L, k)] THEN "parameters"
    ELSE IF e.out.name # e.name THEN "name"
    ELSE IF e.out.time.shape # <<N>> \/ e.out.co.shape # <<R, N>> THEN "shape"
    ELSE IF ~ \A k \in 1..N : LET v == DyearToMjd(ShcTimes(L)[k], e.leap) IN
              Near(e.out.time.data[k], v, FAdd(FMul(FAbs(v), Eps(14)), Eps(9))) THEN "times"
    ELSE Verdict(\A i \in 1..R : \A k \in 1..N : e.out.co.data[(i-1)*N + k] = L[2+i][2+k],
                 "coefficients")

\* ---- SHC: the model that comes back ---------------------------------------------
\* bound for the change per day at the samples
RECURSIVE SlopeRec(_, _, _, _, _)
SlopeRec(m, d, ts, k, acc) ==
    IF k > Len(ts) THEN acc
    ELSE SlopeRec(m, d, ts, k+1, FMax(acc, FAbs(PieceVal(m, Piece(m, ts[k]), d, ts[k], 1)[1])))
JudgeShcM(e) ==
    LET m == Defs[e.m]
        D == e.nmax*(e.nmax+2)
        T == Len(e.ts)
        first == e.nmin*e.nmin            \* first coefficient in the window
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.nmax # e.nmax THEN "degree"
       ELSE IF e.out.order # PpOrder(m) THEN "order"
       ELSE IF e.out.co.shape # <<T, D>> THEN "shape"
       ELSE IF ~ \A d \in 1..(first-1) : \A k \in 1..T : e.out.co.data[(k-1)*D + d] = F0
            THEN "below-window"
       ELSE Verdict(\A d \in first..D :
               LET sl == IF PpOrder(m) = 1 THEN F0 ELSE SlopeRec(m, d, e.ts, 1, F0)
                   tol == FAdd(Eps(6), FMul(sl, FMulI(Eps(5), 4)))
               IN \A k \in 1..T : Near(e.out.co.data[(k-1)*D + d],
                                       Query(m, d, e.ts[k], 2, 0)[1], tol), "function-of-time")
\* a file of snapshots read as step function (order one) or interpolation (order two)
JudgeShcF(e) ==
    LET L == TLCEval(DataLines(e.lines, {"#"}))
        mj == TLCEval([k \in 1..Par(L, 3) |-> DyearToMjd(ShcTimes(L)[k], e.leap)])
        T == Len(e.ts)
        nmin == Par(L, 1)
        D == Par(L, 2)*(Par(L, 2) + 2)
        V(d, t) == LET r == ShcRow(L, d - nmin*nmin + 1).v IN
                   IF Par(L, 4) = 1 THEN r[PieceFrom([br |-> mj], t, Len(mj))] ELSE LinVal(mj, r, t)
    IN IF IsExc(e) THEN "valid-file-rejected"
       ELSE IF e.out.co.shape # <<T, D>> THEN "shape"
       ELSE IF ~ \A d \in 1..(nmin*nmin - 1) : \A k \in 1..T : e.out.co.data[(k-1)*D + d] = F0
            THEN "below-window"
       ELSE Verdict(\A d \in (nmin*nmin)..D : \A k \in 1..T :
                 LET v == V(d, e.ts[k]) IN
                 Near(e.out.co.data[(k-1)*D + d], v, FAdd(FMul(FAbs(v), Eps(9)), Eps(7))), "snapshots")

\* ---- RC-index files ---------------------------------------------------------------
\* R = [t, rc, e, i |-> numbers, fl |-> strings]
JudgeRcR(e) ==
    LET R == Defs[e.tab] n == Len(R.t) IN
    IF IsExc(e) THEN "valid-file-rejected"
    ELSE IF e.out.n # n THEN "rows"
    ELSE IF e.out.names # (IF e.dates THEN <<"RC", "RC_e", "RC_i", "flag">>
                            ELSE <<"time", "RC", "RC_e", "RC_i", "flag">>) THEN "columns"
    ELSE IF ~e.dates /\ e.out.t # R.t THEN "times"
    ELSE IF e.dates /\ ~ \A k \in 1..n : Near(e.out.stamp[k], FMul(R.t[k], FOfB(NsPerDay)),
                             FAdd(FMul(FMul(FAbs(R.t[k]), FOfB(NsPerDay)), FMulI(Eps(16), 4)), F(2)))
         THEN "dates"
    ELSE IF e.out.rc # R.rc \/ e.out.e # R.e \/ e.out.i # R.i THEN "values"
    ELSE Verdict(e.out.fl = R.fl, "flags")
JudgeRcH(e) ==
    LET R == Defs[e.tab] IN
    IF IsExc(e) THEN "valid-file-rejected"
    ELSE IF e.warned \/ ~e.out.said THEN "no-success"
    ELSE IF SetOf(e.out.names) # {"time", "RC", "RC_e", "RC_i", "flag"} THEN "columns"
    ELSE IF e.out.t # R.t \/ e.out.rc # R.rc \/ e.out.e # R.e \/ e.out.i # R.i THEN "values"
    ELSE Verdict(e.out.fl = R.fl, "flags")
\* a behaviour of RcStore replayed: responses of the code in order.  h.tab[id] is
\* the table (definition) of content id.
RcAnswer(h, a, want, got) ==
    CASE want[1] = "ok" -> got.k = "ok" /\ (a.k = "convert" => got.said)
      [] want[1] = "error" -> got.k = "error"
      [] want[1] = "warning" -> got.k = "warning" /\ ~got.said
      [] want[1] = "table" ->
            LET R == Defs[h.tab[want[2]]] IN
            IF a.k = "load" THEN got.k = "table" /\ got.t = R.t /\ got.e = R.e /\ got.i = R.i /\ got.fl = R.fl
            ELSE LET out == \E k \in 1..Len(got.at) : ~RCInside(R, got.at[k]) IN
                 IF out THEN got.k = "error" /\ got.value_error
                 ELSE /\ got.k = "values"
                      /\ \A k \in 1..Len(got.at) :
                           LET v == RCVal(R, IF got.src = "external" THEN R.e ELSE R.i, got.at[k])
                           IN Near(got.v[k], v, Eps(9))
      [] OTHER -> FALSE
RECURSIVE RcReplay(_, _, _)
RcReplay(h, s, j) ==
    IF j > Len(h.acts) THEN "ok"
    ELSE LET r == TLCEval(Apply(s, h.acts[j])) IN
         IF RcAnswer(h, h.acts[j], r[2], h.out.answers[j]) THEN RcReplay(h, r[1], j+1)
         ELSE "history-" \o h.acts[j].k
JudgeRcHist(e) == IF IsExc(e) THEN "replay-failed"
                  ELSE RcReplay(e, Empty({"a", "b", "q"}, "a"), 1)

\* ---- MAT-files ------------------------------------------------------------------------
Generic(s) == "satellite_" \o ToString(s)
Cut(fl) == [fl EXCEPT !.pre = <<>>]
JudgeMat(e) ==
    IF IsExc(e) THEN "save-or-load-failed"
    ELSE IF e.out.after # e.before THEN "model-modified"
    ELSE IF e.out.names # e.names THEN "argument-modified"
    ELSE IF e.before.ext # <<>> /\ e.out.file.model_ext = <<>> THEN "external-part-lost"
    ELSE IF Cut(e.out.file) # Cut(ToMat(e.before)) THEN "layout"
    ELSE IF e.before.pre # <<>> /\ e.out.file.pre # e.before.pre THEN "pre-rotation"
    ELSE IF e.out.loaded # FromMat(ToMat(e.before), e.names, Generic, 0) THEN "loaded-model"
    ELSE Verdict(e.out.again = e.out.loaded, "second-round")
JudgeMatL(e) ==
    IF IsExc(e) THEN "load-failed"
    ELSE IF e.out.names # e.names THEN "argument-modified"
    ELSE IF e.out.loaded.pp # FromMat(e.file, e.names, Generic, 0).pp THEN "time-dependent-part"
    ELSE IF e.out.loaded.ext # FromMat(e.file, e.names, Generic, 0).ext THEN "external-part"
    ELSE IF e.out.loaded.eul # FromMat(e.file, e.names, Generic, 0).eul THEN "euler-angles"
    ELSE Verdict(e.out.loaded = FromMat(e.file, e.names, Generic, 0), "loaded-model")
\* the same query of two models (or repeated)
JudgeSame(e) ==
    IF IsExc(e) THEN "query-failed"
    ELSE Verdict(e.out.a.shape = e.out.b.shape /\
                 \A k \in 1..Len(e.out.a.data) : \/ e.out.a.data[k] = e.out.b.data[k]
                                                 \/ IsFin(e.out.b.data[k]) /\ NR(e.out.a.data[k], e.out.b.data[k]),
                 "different-" \o e.what)

\* ---- third-party models -------------------------------------------------------------------
JudgeIgrf(e) ==
    LET I == Defs[e.m] D == Len(I.lab) T == Len(e.ts) N == InferNmax(1, -1, D)
        ord == TLCEval(RowOrder(1, N)) IN
    IF IsExc(e) THEN "valid-file-rejected"
    ELSE IF e.out.name # e.name THEN "name"
    ELSE IF e.out.nmax # e.nmax \/ e.out.src # "internal" THEN "degree-or-source"
    ELSE IF e.out.co.shape # <<T, D>> THEN "shape"
    ELSE Verdict(\A d \in 1..D : \A k \in 1..T :
             LET v == IgrfVal(I, ord[d], e.ts[k]) IN
             Near(e.out.co.data[(k-1)*D + d], v, FAdd(FMul(FAbs(v), Eps(10)), Eps(9))), "snapshots")
JudgeSpl(e) ==
    LET S == Defs[e.m] D == Len(S.c[1]) T == Len(e.ts) IN
    IF IsExc(e) THEN "valid-file-rejected"
    ELSE IF e.out.name # e.name THEN "name"
    ELSE IF e.out.nmax # e.nmax \/ e.out.src # "internal" THEN "degree-or-source"
    ELSE IF e.out.co.shape # <<T, D>> THEN "shape"
    ELSE LET kn == TLCEval(SplKnots(S)) IN
         Verdict(\A k \in 1..T :
             LET r == TLCEval(Row(kn, S.k, e.ts[k], e.nu)) IN
             \A d \in 1..D :
               LET v == FMul(FDot(r, [i \in 1..Len(r) |-> S.c[i][d]]), YearFactor(e.nu))
                   s == FMul(FDot([i \in 1..Len(r) |-> FAbs(r[i])], [i \in 1..Len(r) |-> FAbs(S.c[i][d])]),
                             YearFactor(e.nu))
               IN Near(e.out.co.data[(k-1)*D + d], v, FAdd(FMul(s, Eps(8)), Eps(8))), "spline-values")

JudgeFile(e) == CASE e.op = "shc_w" -> JudgeShcW(e)
                  [] e.op = "shc_r" -> JudgeShcR(e)
                  [] e.op = "shc_m" -> JudgeShcM(e)
                  [] e.op = "shc_f" -> JudgeShcF(e)
                  [] e.op = "rc_r" -> JudgeRcR(e)
                  [] e.op = "rc_h" -> JudgeRcH(e)
                  [] e.op = "rc_hist" -> JudgeRcHist(e)
                  [] e.op = "mat" -> JudgeMat(e)
                  [] e.op = "matl" -> JudgeMatL(e)
                  [] e.op = "same" -> JudgeSame(e)
                  [] e.op = "igrf" -> JudgeIgrf(e)
                  [] e.op = "spl" -> JudgeSpl(e)
=============================================================================
