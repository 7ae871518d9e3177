------------------------------ MODULE MC_BSpline ------------------------------
EXTENDS BSpline, TLC, IOUtils
Big == IOEnv.PP_BIG = "1"
BreakSets == { <<0, 1, 3>>, <<0, 2, 3, 4>>, <<0, 1, 1, 2>>, <<-2, 5>> } \cup
             IF Big THEN { <<0, 1, 2, 4, 5, 7>>, <<0, 1, 1, 1, 2, 3>>, <<-3, -2, 0, 5, 6>> } ELSE {}
MaxK == IF Big THEN 6 ELSE 4
VARIABLES br, k, t
Init == /\ br \in BreakSets /\ k \in 1..MaxK /\ t = 4 * br[1]
Next == t < 4 * br[Len(br)] /\ t' = t + 1 /\ UNCHANGED <<br, k>>
Kn == Augment([i \in 1..Len(br) |-> F(br[i])], k)
T == FQ(t, 4)
R(nu) == Row(Kn, k, T, nu)
KnotInv == /\ Len(Kn) = Len(br) + 2*k - 2
           /\ \A i \in 1..k : Kn[i] = F(br[1]) /\ Kn[Len(Kn)+1-i] = F(br[Len(br)])
Multi == \E i \in 1..(Len(br)-1) : br[i] = br[i+1]
PartitionInv == Near(FSum(R(0)), F1, Eps(18))
NonNegInv == \A i \in 1..NBasis(Kn, k) : R(0)[i][1] >= 0
DerivSumInv == \A nu \in 1..(k-1) : Near(FSum(R(nu)), F0, Eps(16))
SupportInv == \A i \in 1..NBasis(Kn, k) :
    (FLt(T, Kn[i]) \/ FLt(Kn[i+k], T)) => R(0)[i] = F0
\* derivatives: Taylor expansion inside a knot interval is exact
RECURSIVE TaySum(_, _, _, _, _)
TaySum(i, mu, h, n, j) == IF j >= k THEN F0
    ELSE FAdd(FDivI(FMul(BasisD(Kn, i, k, T, mu, n+j), FPow(h, j)), Factorial(j)),
              TaySum(i, mu, h, n, j+1))
TaylorInv == LET mu == Span(Kn, T) h == FQ(1, 8) IN
    \A i \in 1..NBasis(Kn, k) : \A nu \in 0..(k-1) :
        Near(BasisD(Kn, i, k, FAdd(T, h), mu, nu), TaySum(i, mu, h, nu, 0), Eps(15))
=============================================================================
