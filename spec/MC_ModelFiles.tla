--------------------------- MODULE MC_ModelFiles ---------------------------
(* A clock runs through the period of an IGRF table and of spline models.     *)
(* IGRF: tabulated values at the epochs, predicted ones five years after the  *)
(* last; between them monotone.  Splines: the expansion on the plain knots is *)
(* the one on knots with repeated ends and zero coefficients for the          *)
(* additional splines (which is what a spline routine expects).               *)
EXTENDS ModelFiles, IOUtils
Big == IOEnv.MF_BIG = "1"
VARIABLES step, k, n
vars == <<step, k, n>>
Ig == [ep |-> <<F(1900), F(1905), F(1910), F(1915)>>, lab |-> <<<<1, 0>>, <<1, 1>>, <<1, -1>>>>,
       tab |-> << <<F(-31543), F(-31464), F(-31354), F(-31212), F(20)>>,
                  <<F(-2298), F(-2298), F(-2297), F(-2306), FQ(-27, 10)>>,
                  <<F(5922), F(5909), F(5898), F(5875), F(0)>> >>]
Yr(s) == FAdd(F(1900), FQ(s, 4))
Steps == 80
Init == step = 0 /\ k \in 2..(IF Big THEN 5 ELSE 4) /\ n \in 1..(IF Big THEN 5 ELSE 3)
Next == step < Steps /\ step' = step + (IF Big THEN 1 ELSE 5) /\ UNCHANGED <<k, n>>
T == DyearToMjd(Yr(step), TRUE)
Lab(i) == Ig.lab[i]
IgrfInv == (k = 2 /\ n = 1) => \A i \in 1..3 :
    LET v == IgrfVal(Ig, Lab(i), T) j == step \div 20 + 1 IN
    /\ (step % 20 = 0 /\ step < Steps) => Near(v, Ig.tab[i][j], Eps(15))
    /\ step = Steps => Near(v, FAdd(Ig.tab[i][4], FMulI(Ig.tab[i][5], 5)), Eps(15))
    /\ (step > 60) => \* the change in the last interval
          Near(FSub(v, Ig.tab[i][4]), FMul(Ig.tab[i][5], FMulI(
               FDiv(FSub(T, IgrfTimes(Ig)[4]), FSub(IgrfTimes(Ig)[5], IgrfTimes(Ig)[4])), 5)), Eps(15))
\* irregular knots of a spline model with n splines of order k
Knots == [i \in 1..(n+k) |-> FAdd(F(1900), FQ(20*(i-1)*(i-1), (n+k-1)*(n+k-1)))]
Cs == [i \in 1..n |-> <<FQ(5*i*i - 11, 3)>>]
S == [k |-> k, kn |-> Knots, c |-> Cs]
Tm == DyearToMjd(Yr(step), FALSE)
Padded == [i \in 1..(n + 2*(k-1)) |-> IF i < k \/ i > n + k - 1 THEN <<F0>> ELSE Cs[i-k+1]]
PadInv == \A nu \in 0..(k-2) :
    Near(SplVal(S, 1, Tm, nu),
         BSplVal(TLCEval(Augment(SplKnots(S), k)), k, Padded, 1, Tm, nu), Eps(12))
\* local: zero at the ends of the knots
EndInv == (step = 0 \/ step = Steps) => Near(SplVal(S, 1, Tm, 0), F0, Eps(15))
=============================================================================
