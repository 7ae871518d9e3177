---------------------------- MODULE MC_ExtField ----------------------------
(* Sources are switched on one by one while time, RC-index and dipole walk    *)
(* over a small grid; the field of a set of sources is additive, the SM field *)
(* is affine in the RC-index, induced and external parts agree when there is  *)
(* no induction, and baselines are right-continuous.                          *)
EXTENDS ExtField, IOUtils
Big == IOEnv.EF_BIG = "1"
VARIABLES set, ti, rc, pl
vars == <<set, ti, rc, pl>>
Times == IF Big THEN <<F(-50), F(0), F(5), F(10), FQ(41, 4), F(15), F(20), F(27)>>
         ELSE <<F(-50), F(0), FQ(41, 4), F(20)>>
RcV == <<F(0), F(-30), FQ(35, 2)>>
Pts == << <<F(6371), F(50), F(30)>>, <<F(6800), F(130), F(-100)>>, <<F(7000), F(89), F(180)>> >>
D == 8
\* identity plus one oscillating entry; the induced spectrum is half of it
Ent(i, j, k) == IF k = 1 THEN (IF i = j THEN F1 ELSE F0)
                ELSE IF i <= 3 /\ j <= 3 THEN FQ(i - 2*j, 20) ELSE F0
Flat(h) == [x \in 1..(2*D*D) |-> LET k == (x-1) \div (D*D) + 1
                                     q == (x-1) % (D*D) IN
                TLCEval(FDivI(Ent((q \div D) + 1, (q % D) + 1, k), h))]
Spec1(h) == [freq |-> [shape |-> <<2>>, data |-> <<F0, F1>>],
             spec |-> [shape |-> <<2, D, D>>, re |-> Flat(h), im |-> [x \in 1..(2*D*D) |->
                          IF x > D*D THEN TLCEval(FDivI(Flat(h)[x], 3)) ELSE F0]], scaled |-> FALSE]
SP == [ext |-> TLCEval(Spec1(1)), ind |-> TLCEval(Spec1(2))]
SPsame == [ext |-> TLCEval(Spec1(1)), ind |-> TLCEval(Spec1(1))]
PC(b, v) == [br |-> b, c |-> << [p \in 1..Len(v) |-> <<v[p]>>] >>]
Md == [tdep |-> <<[br |-> <<F0, F(10), F(20)>>,
                 c |-> << << <<FQ(1,2), F(1), F(-1)>>, <<FQ(1,4), F(0), F(2)>> >>,
                          << <<F(-100), F(20), F(30)>>, <<F(-95), F(30), F(20)>> >> >>]>>,
       stat |-> <<[br |-> <<F0, F(20)>>, c |-> << << [i \in 1..8 |-> F(i-4)] >> >>]>>,
       gsm |-> [i \in 1..8 |-> IF i = 1 THEN F(12) ELSE IF i = 4 THEN F(-2) ELSE F0],
       sm |-> [i \in 1..8 |-> FQ(3 - i, 7)],
       dl |-> << PC(<<F0, F(10), F(20)>>, <<F(3), F(-4)>>), PC(<<F0, F(20)>>, <<F(1)>>),
                 PC(<<F0, F(5), F(20)>>, <<F(-1), F(2)>>) >>]
T == Times[ti]
TotalAt(s, p, x) == TLCEval(Total(Md, SP, SP, F(6371), T, Pts[p][1], Pts[p][2], Pts[p][3], s, -1, x, x))
Init == set = {} /\ ti = 1 /\ rc = 1 /\ pl = 1
Next == \/ \E s \in Sources \ set : set' = set \cup {s} /\ UNCHANGED <<ti, rc, pl>>
        \/ ti < Len(Times) /\ ti' = ti + 1 /\ UNCHANGED <<set, rc, pl>>
        \/ rc < Len(RcV) /\ rc' = rc + 1 /\ UNCHANGED <<set, ti, pl>>
        \/ Big /\ pl < Len(Pts) /\ pl' = pl + 1 /\ UNCHANGED <<set, ti, rc>>
Tol == Eps(12)
Near3(x, y) == \A k \in 1..3 : Near(x[k], y[k], Tol)
AddInv == LET tot == TotalAt(set, pl, RcV[rc]) IN
    \A s \in set : Near3(tot, Add4(TotalAt(set \ {s}, pl, RcV[rc]), TotalAt({s}, pl, RcV[rc])))
\* affine in the index: f(rc) = f(0) + rc (f(1) - f(0))
AffineInv == "sm" \in set =>
    LET f0 == TotalAt({"sm"}, pl, F0) f1 == TotalAt({"sm"}, pl, F1) f == TotalAt({"sm"}, pl, RcV[rc]) IN
    \A k \in 1..3 : Near(f[k], FAdd(f0[k], FMul(RcV[rc], FSub(f1[k], f0[k]))), Tol)
\* a perfect inductor's response equal to the external field: same coefficients
SameInv == \A i \in 1..D : Near(SmCoeff(Md, SPsame, T, "external", RcV[rc], i)[1],
                                SmCoeff(Md, SPsame, T, "internal", RcV[rc], i)[1], Tol)
HalfInv == \A i \in 1..D : Near(GsmCoeff(Md, SP, T, "external", i)[1],
                                FMulI(GsmCoeff(Md, SP, T, "internal", i)[1], 2), Tol)
CutInv == \A n \in {-1, 1, 2, 5} : GsmCut(Md, n) \in 1..2 /\ (n = 1 => SmCut(Md, n) = 1)
RC0 == [t |-> <<F0, F(2), F(3), F(7)>>, e |-> <<F(5), F(-1), F(0), F(8)>>]
RCInv == /\ \A k \in 1..4 : Near(RCVal(RC0, RC0.e, RC0.t[k]), RC0.e[k], Tol)
         /\ Near(RCVal(RC0, RC0.e, F1), F(2), Tol)
         /\ RCInside(RC0, F(7)) /\ ~RCInside(RC0, FQ(71, 10)) /\ ~RCInside(RC0, FQ(-1, 100))
BaseInv == /\ Delta(Md, 1, F(10)) = F(-4) /\ Delta(Md, 1, FQ(999, 100)) = F(3)
           /\ Delta(Md, 1, F(20)) = F(-4) /\ Delta(Md, 1, F(-9)) = F(3) /\ Delta(Md, 3, F(5)) = F(2)
=============================================================================
