----------------------------- MODULE Trace_Frames -----------------------------
(* Coordinate, frame and vector transformations judged against Frames and     *)
(* Ellipsoid.  Directions are compared as Cartesian vectors, which is well    *)
(* conditioned everywhere.                                                     *)
EXTENDS Frames, Ellipsoid, TraceBase

T9 == Eps(9)
F180 == F(180)
InColat(x) == IsFin(x) /\ FLe(F0, x) /\ FLe(x, F180)
InAzim(x) == IsFin(x) /\ FLe(F(-180), x) /\ FLe(x, F180)

Sh2(a, b) == Broadcast(a, b)
Ok2(a, b) == BroadcastOk(a, b)
Ok3(a, b, c) == Ok2(a, b) /\ Ok2(Broadcast(a, b), c)
Sh3(a, b, c) == Broadcast(Broadcast(a, b), c)

\* element mi of an array of 3-vectors [shape (..., 3), data]
LeadSh(a) == SubSeq(a.shape, 1, Len(a.shape)-1)
VecAt(a, mi) == LET f == BFlat(mi, LeadSh(a)) IN SubSeq(a.data, 3*f + 1, 3*f + 3)

\* dipole direction: e.dip is one of  [kind |-> "coeffs", g |-> array (..., 3)],
\* [kind |-> "pole", th, ph |-> arrays],  [kind |-> "three", g10, g11, h11 |-> arrays]
DipSh(d) == CASE d.kind = "coeffs" -> LeadSh(d.g)
              [] d.kind = "pole" -> Sh2(d.th.shape, d.ph.shape)
              [] d.kind = "three" -> d.g10.shape
DipAt(d, mi) == CASE d.kind = "coeffs" -> DipOfCoeffs(VecAt(d.g, mi))
                  [] d.kind = "pole" -> DipOfPole(BAt(d.th, mi), BAt(d.ph, mi))
                  [] d.kind = "three" -> DipOfCoeffs(<<BAt(d.g10, mi), BAt(d.g11, mi), BAt(d.h11, mi)>>)
\* shape of the frames of an event: time and dipole (MAG: dipole only)
FrameSh(e) == IF e.frame = "mag" THEN DipSh(e.dip) ELSE Sh2(e.time.shape, DipSh(e.dip))
FrameAt(e, mi) == LET d == TLCEval(DipAt(e.dip, mi)) IN
    IF e.frame = "mag" THEN MAG(d) ELSE Frame(e.frame, SunDir(BAt(e.time, mi)), d)
\* frame sent as three arrays
BaseAt(e, mi) == << VecAt(e.b1, mi), VecAt(e.b2, mi), VecAt(e.b3, mi) >>

AllPos(sh, P(_)) == \A p \in 0..(Size(sh)-1) : P(Unravel(p, sh))
Pos(mi, sh) == BFlat(mi, sh)
Verdict(c, name) == IF c THEN "ok" ELSE name

\* ---- C15 -------------------------------------------------------------------
JudgeS2C(e) ==
    LET sh == Sh3(e.r.shape, e.th.shape, e.ph.shape)
        shxy == sh
        G(mi) == LET r == BAt(e.r, mi) u == Unit(BAt(e.th, mi), BAt(e.ph, mi))
                     tol == FAdd(FMul(r, Eps(12)), Eps(15)) IN
                 VNear(<<BAt(e.out.x, mi), BAt(e.out.y, mi), BAt(e.out.z, mi)>>, FScale(u, r), tol)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.x.shape # sh \/ e.out.y.shape # sh \/ ~BroadcastOk(e.out.z.shape, sh) THEN "shape"
       ELSE Verdict(AllPos(sh, G), "cartesian-values")
JudgeC2S(e) ==
    LET sh == Sh3(e.x.shape, e.y.shape, e.z.shape)
        G(mi) == LET v == <<BAt(e.x, mi), BAt(e.y, mi), BAt(e.z, mi)>>
                     r == BAt(e.out.r, mi) th == BAt(e.out.th, mi) ph == BAt(e.out.ph, mi)
                     n == FNorm(v) tol == FAdd(FMul(n, Eps(11)), Eps(15)) IN
                 /\ Near(r, n, tol) /\ InColat(th) /\ InAzim(ph)
                 /\ VNear(FScale(Unit(th, ph), r), v, tol)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.r.shape # sh \/ e.out.th.shape # sh THEN "shape"
       ELSE Verdict(AllPos(sh, G), "spherical-values")
JudgeAzim(e) ==
    LET G(mi) == LET x == BAt(e.out, mi) IN
                 /\ IsFin(x) /\ FLt(F(-180), x) /\ FLe(x, F180)
                 /\ SameAngle(x, BAt(e.ph, mi), FAdd(FMul(FAbs(BAt(e.ph, mi)), Eps(14)), Eps(11)))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # e.ph.shape THEN "shape"
       ELSE Verdict(AllPos(e.ph.shape, G), "azimuth")
JudgeLT(e) ==
    LET sh == Sh2(e.time.shape, e.ph.shape)
        G(mi) == LET x == BAt(e.out, mi)
                     h == FAdd(FMulI(BAt(e.time, mi), 24), FDivI(BAt(e.ph, mi), 15)) IN
                 /\ IsFin(x) /\ FLe(F0, x) /\ FLt(x, F(24))
                 /\ SameAngle(FMulI(x, 15), FMulI(h, 15), FAdd(FMul(FAbs(h), Eps(13)), T9))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # sh THEN "shape"
       ELSE Verdict(AllPos(sh, G), "local-time")

\* ---- C16 -------------------------------------------------------------------
\* north and down components at (theta, beta) <-> radial and southward components
JudgeGg2Geo(e) ==
    LET sh0 == Sh2(e.h.shape, e.be.shape)
        sh == IF e.vec THEN Sh3(sh0, e.x.shape, e.z.shape) ELSE sh0
        G(mi) == LET h == BAt(e.h, mi) be == BAt(e.be, mi)
                     r == BAt(e.out.r, mi) th == BAt(e.out.th, mi)
                     tol == FMul(FAdd(e.a, FAbs(h)), Eps(11)) IN
                 /\ IsFin(r) /\ InColat(th)
                 /\ VNear(Geocentric(r, th), Geodetic(e.a, e.b, h, be), tol)
        V(mi) == LET q == GgBase(BAt(e.out.th, mi), BAt(e.be, mi))
                     X == BAt(e.x, mi) Z == BAt(e.z, mi)
                     tol == FAdd(FMul(FAdd(FAbs(X), FAbs(Z)), Eps(11)), Eps(15)) IN
                 /\ Near(BAt(e.out.br, mi), FAdd(FMul(q[1][1], X), FMul(q[3][1], Z)), tol)
                 /\ Near(BAt(e.out.bt, mi), FAdd(FMul(q[1][2], X), FMul(q[3][2], Z)), tol)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.r.shape # sh0 \/ e.out.th.shape # sh0 THEN "shape"
       ELSE IF ~AllPos(sh0, G) THEN "geocentric-position"
       ELSE IF ~e.vec THEN "ok"
       ELSE IF e.out.br.shape # sh \/ e.out.bt.shape # sh THEN "vector-shape"
       ELSE Verdict(AllPos(sh, V), "geocentric-vector")
JudgeGeo2Gg(e) ==
    LET sh0 == Sh2(e.r.shape, e.th.shape)
        sh == IF e.vec THEN Sh3(sh0, e.br.shape, e.bt.shape) ELSE sh0
        G(mi) == LET h == BAt(e.out.h, mi) be == BAt(e.out.be, mi)
                     r == BAt(e.r, mi)
                     tol == FMul(FAdd(e.a, r), Eps(11)) IN
                 /\ IsFin(h) /\ InColat(be)
                 /\ VNear(Geodetic(e.a, e.b, h, be), Geocentric(r, BAt(e.th, mi)), tol)
                 \* a point near or above the surface has the nearby, not the antipodal, foot point
                 /\ FLt(FNeg(FDivI(e.b, 2)), h)
        V(mi) == LET q == GgBase(BAt(e.th, mi), BAt(e.out.be, mi))
                     R == BAt(e.br, mi) S == BAt(e.bt, mi)
                     tol == FAdd(FMul(FAdd(FAbs(R), FAbs(S)), Eps(11)), Eps(15)) IN
                 /\ Near(BAt(e.out.x, mi), FAdd(FMul(q[1][1], R), FMul(q[1][2], S)), tol)
                 /\ Near(BAt(e.out.z, mi), FAdd(FMul(q[3][1], R), FMul(q[3][2], S)), tol)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.h.shape # sh0 \/ e.out.be.shape # sh0 THEN "shape"
       ELSE IF ~AllPos(sh0, G) THEN "geodetic-position"
       ELSE IF ~e.vec THEN "ok"
       ELSE IF e.out.x.shape # sh \/ e.out.z.shape # sh THEN "vector-shape"
       ELSE Verdict(AllPos(sh, V), "geodetic-vector")
JudgeGgBase(e) ==
    LET sh == Sh2(e.th.shape, e.be.shape)
        G(mi) == LET q == GgBase(BAt(e.th, mi), BAt(e.be, mi)) IN
                 /\ VNear(VecAt(e.out.b1, mi), q[1], Eps(12))
                 /\ VNear(VecAt(e.out.b2, mi), q[2], Eps(12))
                 /\ VNear(VecAt(e.out.b3, mi), q[3], Eps(12))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.b1.shape # Append(sh, 3) \/ e.out.b3.shape # Append(sh, 3) THEN "shape"
       ELSE Verdict(AllPos(sh, G), "geodetic-base-vectors")

\* ---- C17 -------------------------------------------------------------------
\* base vectors at every position that is not `skip`ped (a missing one)
Same3Not(e, sh, B(_), skip(_)) ==
    LET G(mi) == skip(mi) \/ LET b == TLCEval(B(mi)) IN
                 /\ VNear(VecAt(e.out.b1, mi), b[1], T9)
                 /\ VNear(VecAt(e.out.b2, mi), b[2], T9)
                 /\ VNear(VecAt(e.out.b3, mi), b[3], T9)
                 /\ Orthonormal(<<VecAt(e.out.b1, mi), VecAt(e.out.b2, mi), VecAt(e.out.b3, mi)>>, Eps(11))
    IN IF e.out.b1.shape # Append(sh, 3) \/ e.out.b2.shape # Append(sh, 3)
          \/ e.out.b3.shape # Append(sh, 3) THEN "shape"
       ELSE Verdict(AllPos(sh, G), "base-vectors")
Same3(e, sh, B(_)) == Same3Not(e, sh, B, LAMBDA mi : FALSE)
JudgeBase(e) ==
    IF IsExc(e) THEN "valid-call-rejected"
    ELSE Same3(e, FrameSh(e), LAMBDA mi : FrameAt(e, mi))
JudgeUse(e) ==
    IF \E i \in 1..Len(e.th.data) : e.th.data[i] = F0 \/ e.th.data[i] = F180
    THEN IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "pole-accepted"
    ELSE IF IsExc(e) THEN "valid-call-rejected"
    ELSE Same3Not(e, Sh2(e.th.shape, e.ph.shape), LAMBDA mi : Use(BAt(e.th, mi), BAt(e.ph, mi)),
                  LAMBDA mi : IsNaN(BAt(e.th, mi)) \/ IsNaN(BAt(e.ph, mi)))
JudgeDip(e) ==
    IF IsExc(e) THEN "valid-call-rejected"
    ELSE IF e.out.v.shape # Append(DipSh(e.dip), 3) THEN "shape"
    ELSE Verdict(AllPos(DipSh(e.dip), LAMBDA mi : VNear(VecAt(e.out.v, mi), DipAt(e.dip, mi), Eps(12))),
                 "dipole-direction")
JudgeBadCall(e) == IF IsExc(e) /\ e.out.value_error THEN "ok" ELSE "invalid-argument-accepted"

\* ---- C18 -------------------------------------------------------------------
PlaceOk(th, ph, v) == InColat(th) /\ InAzim(ph) /\ VNear(Unit(th, ph), v, T9)
\* Cartesian map of an event at mi: rows
MapAt(e, mi) == LET B == IF e.frame = "given" THEN BaseAt(e, mi) ELSE FrameAt(e, mi) IN
    IF e.inverse THEN Transpose(B) ELSE B
MapSh(e) == IF e.frame = "given" THEN LeadSh(e.b1) ELSE FrameSh(e)
JudgePoints(e) ==
    LET sh == Sh3(e.th.shape, e.ph.shape, MapSh(e))
        G(mi) == LET m == TLCEval(MapAt(e, mi)) IN
                 PlaceOk(BAt(e.out.th, mi), BAt(e.out.ph, mi),
                         Apply(m, Unit(BAt(e.th, mi), BAt(e.ph, mi))))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.th.shape # sh \/ e.out.ph.shape # sh THEN "shape"
       ELSE Verdict(AllPos(sh, G), "transformed-position")
JudgeMatrix(e) ==
    LET sh == Sh3(e.th.shape, e.ph.shape, MapSh(e))
        G(mi) == LET m == TLCEval(MapAt(e, mi))
                     s == TLCEval(Use(BAt(e.th, mi), BAt(e.ph, mi)))
                     t == TLCEval(Use(BAt(e.out.th, mi), BAt(e.out.ph, mi)))
                     f == BFlat(mi, sh) IN
                 /\ PlaceOk(BAt(e.out.th, mi), BAt(e.out.ph, mi), Apply(m, s[1]))
                 /\ \A i \in 1..3 : \A j \in 1..3 :
                      Near(e.out.m.data[9*f + 3*(i-1) + j], FDot(t[i], Apply(m, s[j])), T9)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.th.shape # sh \/ e.out.ph.shape # sh \/ e.out.m.shape # sh \o <<3, 3>> THEN "shape"
       ELSE Verdict(AllPos(sh, G), "rotation-matrix")
JudgeVectors(e) ==
    LET sh0 == Sh3(e.th.shape, e.ph.shape, MapSh(e))
        sh == Sh3(sh0, e.bt.shape, e.bp.shape)
        G(mi) == LET m == TLCEval(MapAt(e, mi))
                     th == BAt(e.th, mi) ph == BAt(e.ph, mi)
                     tho == BAt(e.out.th, mi) pho == BAt(e.out.ph, mi)
                     bt == BAt(e.bt, mi) bp == BAt(e.bp, mi)
                     v == FVAdd(FScale(South(th, ph), bt), FScale(East(ph), bp))
                     tol == FAdd(FMul(FAdd(FAbs(bt), FAbs(bp)), T9), Eps(13)) IN
                 /\ PlaceOk(tho, pho, Apply(m, Unit(th, ph)))
                 /\ IsFin(BAt(e.out.bt, mi)) /\ IsFin(BAt(e.out.bp, mi))
                 /\ VNear(FVAdd(FScale(South(tho, pho), BAt(e.out.bt, mi)),
                                FScale(East(pho), BAt(e.out.bp, mi))), Apply(m, v), tol)
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.th.shape # sh0 \/ e.out.ph.shape # sh0 \/ e.out.bt.shape # sh
               \/ e.out.bp.shape # sh THEN "shape"
       ELSE Verdict(AllPos(sh, G), "transformed-vector")

\* ---- C19 -------------------------------------------------------------------
JudgeSun(e) ==
    LET G(mi) == LET th == BAt(e.out.th, mi) ph == BAt(e.out.ph, mi) t == BAt(e.time, mi) IN
                 /\ InColat(th) /\ InAzim(ph) /\ VNear(Unit(th, ph), SunDir(t), Eps(10))
                 /\ FLe(FAbs(FSub(F(90), th)), FAdd(Obliquity(t), T9))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.th.shape # e.time.shape \/ e.out.ph.shape # e.time.shape THEN "shape"
       ELSE Verdict(AllPos(e.time.shape, G), "sun-position")
JudgeZenith(e) ==
    LET sh == Sh3(e.time.shape, e.th.shape, e.ph.shape)
        G(mi) == LET z == BAt(e.out, mi)
                     c == FDot(SunDir(BAt(e.time, mi)), Unit(BAt(e.th, mi), BAt(e.ph, mi))) IN
                 InColat(z) /\ Near(FCosD(z), c, Eps(11))
    IN IF IsExc(e) THEN "valid-call-rejected"
       ELSE IF e.out.shape # sh THEN "shape"
       ELSE Verdict(AllPos(sh, G), "zenith-angle")

JudgeFr(e) == CASE e.op = "s2c" -> JudgeS2C(e)
                [] e.op = "c2s" -> JudgeC2S(e)
                [] e.op = "azim" -> JudgeAzim(e)
                [] e.op = "lt" -> JudgeLT(e)
                [] e.op = "gg2geo" -> JudgeGg2Geo(e)
                [] e.op = "geo2gg" -> JudgeGeo2Gg(e)
                [] e.op = "ggbase" -> JudgeGgBase(e)
                [] e.op = "base" -> JudgeBase(e)
                [] e.op = "use" -> JudgeUse(e)
                [] e.op = "dip" -> JudgeDip(e)
                [] e.op = "bad" -> JudgeBadCall(e)
                [] e.op = "points" -> JudgePoints(e)
                [] e.op = "matrix" -> JudgeMatrix(e)
                [] e.op = "vectors" -> JudgeVectors(e)
                [] e.op = "sun" -> JudgeSun(e)
                [] e.op = "zenith" -> JudgeZenith(e)
=============================================================================
