----------------------------- MODULE Trace_Time -----------------------------
(* Calls of the time conversions, judged against Calendar.                  *)
EXTENDS Calendar, TraceBase

\* double resolution of a value of this size (with some slack)
Res(v) == FMul(Eps(15), FMax(F1, FAbs(v)))

RECURSIVE BcShape(_, _, _)
BcShape(args, i, acc) ==
    IF i > Len(args) THEN <<"ok", acc>>
    ELSE IF ~BroadcastOk(acc, args[i].shape) THEN <<"err">>
    ELSE BcShape(args, i+1, Broadcast(acc, args[i].shape))

CompAt(e, k, mi) == BAt(e.args[k], mi)
\* components 1..8 = y m d h mi s us ns
ElemDate(e, mi) == << BToInt(CompAt(e, 1, mi)), BToInt(CompAt(e, 2, mi)),
                      BToInt(CompAt(e, 3, mi)) >>
ElemMjd(e, mi) == LET c == ElemDate(e, mi) IN
    Mjd(c[1], c[2], c[3], TodNs(CompAt(e, 4, mi), CompAt(e, 5, mi), CompAt(e, 6, mi),
                                CompAt(e, 7, mi), CompAt(e, 8, mi)))

JudgeMjd(e) ==
    LET bc == BcShape(e.args, 1, <<>>) IN
    IF bc[1] = "err" THEN IF IsExc(e) THEN "ok" ELSE "incompatible-shapes-accepted"
    ELSE LET sh == bc[2] N == Size(bc[2])
             date == BcShape(SubSeq(e.args, 1, 3), 1, <<>>)
             mi == [p \in 0..(N-1) |-> Unravel(p, sh)]
             valid == \A p \in 0..(N-1) : LET c == ElemDate(e, mi[p]) IN
                         ValidDate(c[1], c[2], c[3])
         IN IF N > 0 /\ ~valid
            THEN IF IsExc(e) THEN "ok" ELSE "invalid-date-accepted"
            ELSE IF IsExc(e) THEN "valid-date-rejected"
            ELSE IF e.out.shape # sh THEN "shape"
            ELSE IF \A p \in 0..(N-1) : LET v == ElemMjd(e, mi[p]) IN
                        Near(e.out.data[p+1], v, Res(v))
                 THEN "ok" ELSE "day-count"

\* datetime objects / datetime64: components arrive decomposed, one array
JudgeMjdDt(e) ==
    IF IsExc(e) THEN "valid-date-rejected"
    ELSE IF e.out.shape # e.args[1].shape THEN "shape"
    ELSE IF \A p \in 0..(Size(e.out.shape)-1) :
              LET v == ElemMjd(e, Unravel(p, e.out.shape)) IN
              Near(e.out.data[p+1], v, Res(v))
         THEN "ok" ELSE "datetime-day-count"

\* timestamp(t): result logged as nanoseconds since 2000-01-01 (big integer)
\* within the spacing of doubles of t (in ns) and at least 1 ns
StampTol(t) == FAdd(FOfB(BInt(2)), FMul(FMul(FAbs(t), FOfB(NsPerDay)), FMulI(Eps(16), 4)))
JudgeStamp(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF e.out.shape # e.t.shape THEN "shape"
    ELSE IF e.out.unit # "ns" THEN "resolution"
    ELSE IF \A p \in 1..Len(e.t.data) :
              Near(FOfB(e.out.ns[p]), FMul(e.t.data[p], FOfB(NsPerDay)), StampTol(e.t.data[p]))
         THEN "ok" ELSE "instant"
\* mjd2000(timestamp(t)) = t
JudgeRound(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF e.out.shape # e.t.shape THEN "shape"
    ELSE IF \A p \in 1..Len(e.t.data) :
              Near(e.out.data[p], e.t.data[p],
                   FAdd(FDiv(F(2), FOfB(NsPerDay)),
                        FMul(FAbs(e.t.data[p]), FMulI(Eps(16), 8))))
         THEN "ok" ELSE "round-trip"

\* decimal years.  A double decimal year resolves ulp(y) years.
YRes(y) == FMul(Eps(15), FMax(F(2000), FAbs(y)))
DRes(y, t) == FAdd(FMulI(YRes(y), 366), Res(t))
JudgeD2M(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF e.out.shape # e.t.shape THEN "shape"
    ELSE IF \A p \in 1..Len(e.t.data) :
              LET v == DyearToMjd(e.t.data[p], e.leap) IN
              Near(e.out.data[p], v, FAdd(Res(v), FMulI(Eps(14), 10)))
         THEN "ok" ELSE "dyear-to-mjd"
JudgeM2D(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF e.out.shape # e.t.shape THEN "shape"
    ELSE IF \A p \in 1..Len(e.t.data) :
              LET v == MjdToDyear(e.t.data[p], e.leap) IN Near(e.out.data[p], v, YRes(v))
         THEN "ok" ELSE "mjd-to-dyear"
\* out is dyear_to_mjd(mjd_to_dyear(t)), sorted input: values back and order kept
JudgeDRound(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF ~ \A p \in 1..Len(e.t.data) :
              Near(e.out.data[p], e.t.data[p],
                   DRes(MjdToDyear(e.t.data[p], FALSE), e.t.data[p]))
         THEN "inverse"
    ELSE "ok"
\* strictly increasing inputs that differ by more than the resolution
JudgeMono(e) ==
    IF IsExc(e) THEN "rejected"
    ELSE IF \A p \in 1..(Len(e.out.data)-1) : FLt(e.out.data[p], e.out.data[p+1])
         THEN "ok" ELSE "monotone"
JudgeLeap(e) ==
    IF ~e.integer THEN IF IsExc(e) /\ e.out.type = "TypeError" THEN "ok"
                       ELSE "non-integer-accepted"
    ELSE IF IsExc(e) THEN "integer-rejected"
    ELSE IF e.out.shape # e.years.shape THEN "shape"
    ELSE IF \A p \in 1..Len(e.years.data) :
              e.out.data[p] = (IF IsLeap(BToInt(e.years.data[p])) THEN F1 ELSE F0)
         THEN "ok" ELSE "leap-rule"

JudgeTime(e) ==
    CASE e.op = "mjd" -> JudgeMjd(e)
      [] e.op = "mjd_dt" -> JudgeMjdDt(e)
      [] e.op = "stamp" -> JudgeStamp(e)
      [] e.op = "round" -> JudgeRound(e)
      [] e.op = "d2m" -> JudgeD2M(e)
      [] e.op = "m2d" -> JudgeM2D(e)
      [] e.op = "dround" -> JudgeDRound(e)
      [] e.op = "mono" -> JudgeMono(e)
      [] e.op = "leap" -> JudgeLeap(e)
=============================================================================
