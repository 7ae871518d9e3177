---------------------------- MODULE MC_Induction ----------------------------
(* Build conductors layer by layer from the core to the surface; at every     *)
(* stage the response stays within its physical bounds, a layer split in two  *)
(* responds alike, and the limits of an insulator and of a perfect conductor  *)
(* are approached.                                                             *)
EXTENDS Induction, IOUtils
Big == IOEnv.IN_BIG = "1"
VARIABLES n, per, kind, sig, rad        \* sig, rad from the surface down
Sigmas == IF Big THEN {1, 100, 10000, 5000000} ELSE {10, 100000}      \* 10^-6 S/m ... * 1e-6
SigF(s) == FQ(s, 1000000)
Periods == IF Big THEN {1, 100, 86400, 31557600, 2000000000} ELSE {1000, 86400, 31557600}
Om == OmegaMu(F(per))
Init == /\ n \in (IF Big THEN 1..4 ELSE {1, 3}) /\ per \in Periods
        /\ \/ kind = "quadratic" /\ rad = <<F(3480)>> /\ sig \in {<<SigF(s)>> : s \in Sigmas}
           \/ kind = "constant" /\ rad = <<F(4000), F(3480)>> /\ sig \in {<<SigF(s), F1>> : s \in Sigmas}
Next == /\ Len(sig) < (IF Big THEN 4 ELSE 3)
        /\ \E s \in Sigmas : sig' = <<SigF(s)>> \o sig /\ rad' = <<FAdd(rad[1], F(400 + 100*Len(sig)))>> \o rad
        /\ UNCHANGED <<n, per, kind>>
Resp(sg, rd) == IF kind = "quadratic" THEN QuadY(n, Om, sg, rd) ELSE ConstY(n, Om, sg, rd)
Y == TLCEval(Resp(sig, rad))
Tol == Eps(9)
\* passivity: Re y >= n+1 gives |Q| <= n/(n+1); induction adds impedance of one sign
BoundInv == LET y == Y q == QResp(n, y) c == CResp(rad[1], y) IN
    /\ FLe(CAbs(q), FAdd(FQ(n, n+1), Tol)) /\ FLe(FNeg(Tol), q[1])
    /\ FLe(F0, c[1]) /\ FLe(c[2], Tol)
    /\ FLe(c[1], FAdd(FDivI(rad[1], n+1), Tol))
\* splitting the uppermost layer changes nothing
SplitInv == LET mid == FDivI(FAdd(rad[1], IF Len(rad) > 1 THEN rad[2] ELSE F(2000)), 2)
                s2 == IF kind = "constant" THEN sig[1] ELSE FMul(sig[1], FSq(FDiv(rad[1], mid)))
            IN CNear(Resp(<<sig[1], s2>> \o Tail(sig), <<rad[1], mid>> \o Tail(rad)), Y,
                     FMul(Eps(8), CAbs(Y)))
\* the differential equation by central differences of ln F: y' r = y - y^2 + n(n+1) + kappa
OdeInv == LET h == FQ(1, 100)
              up == IF kind = "quadratic" THEN FMul(sig[1], F1) ELSE sig[1]
              Top(r) == IF kind = "quadratic"
                        THEN Resp([sig EXCEPT ![1] = FMul(sig[1], FSq(FDiv(rad[1], r)))], [rad EXCEPT ![1] = r])
                        ELSE Resp(sig, [rad EXCEPT ![1] = r])
              y == Y
              d == CScale(CSub(Top(FAdd(rad[1], h)), Top(FSub(rad[1], h))), FMul(FDivI(rad[1], 2), F(100)))
              rhs == CAdd(CSub(y, CMul(y, y)), <<F(n*(n+1)), FMul(FMul(Om, up), FSq(rad[1]))>>)
          IN CNear(d, rhs, FMul(Eps(4), FMax(F1, CNorm2(y))))
\* limits
LimitInv ==
    /\ CNear(QResp(n, QuadY(n, F0, <<F1>>, <<F(6371)>>)), C0, Eps(15))
    /\ LET q == QResp(n, QuadY(n, OmegaMu(FQ(1, 1000)), <<F(1000000)>>, <<F(6371)>>)) IN
       CNear(q, CR(FQ(n, n+1)), Eps(4))
    /\ LET rho == RhoA(OmegaMu(F1), CResp(F(6371), QuadY(n, OmegaMu(F1), <<FQ(1, 100)>>, <<F(6371)>>))) IN
       Near(rho, F(100), F(2))       \* half space at short period: the resistivity of the ground
    /\ LET c == CResp(F(6371), QuadY(n, OmegaMu(F1), <<FQ(1, 100)>>, <<F(6371)>>)) IN
       Near(PhaseD(c), F(45), F(1))
=============================================================================
