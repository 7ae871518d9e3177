-------------------------------- MODULE MC_Fx --------------------------------
(* Identities of the elementary functions on a sweep of arguments.          *)
EXTENDS Fx, TLC
VARIABLE k
Init == k \in -360..360
Next == UNCHANGED k
T == Eps(18)
ang == FQ(k * 7 + 1, 3)                   \* degrees, -840 .. 840
sc == FSinCosD(ang)
Pyth == Near(FAdd(FSq(sc[1]), FSq(sc[2])), F1, T)
RadDeg == LET r == FSinCos(FDeg(ang)) IN VNear(r, sc, T)
Double == LET d == FSinCosD(FMulI(ang, 2)) IN
          /\ Near(d[1], FMulI(FMul(sc[1], sc[2]), 2), T)
          /\ Near(d[2], FSub(FMulI(FSq(sc[2]), 2), F1), T)
Quarter == /\ FSinCosD(F(90 * k)) = SinCosQ(k % 4, F0, F1)
Half == Near(FSinD(F(30)), FQ(1, 2), T) /\ Near(FCosD(F(60)), FQ(1, 2), T)
Arc == LET a == FAtan2D(sc[1], sc[2]) IN
       LET d == FDivI(FSub(ang, a), 360) IN
       Near(d, FOfB(FFloorB(FAdd(d, FQ(1, 2)))), T) /\ BLe(FAbs(a), FAdd(F(180), T))
ExpLaw == LET u == FQ(k, 40) IN NearR(FMul(FExp(u), FExp(FNeg(u))), F1, T)
SqrtLaw == LET u == FQ(k * k + 1, 7) IN Near(FSq(FSqrt(u)), u, T)
=============================================================================
