---------------------------- MODULE ModelFiles ----------------------------
(***************************************************************************)
(* Field models in third-party text files.                                  *)
(* IGRF: columns of snapshots at decimal years and a last column with the   *)
(*   change per year over the five years after the last snapshot;           *)
(*   I = [ep |-> years, lab |-> <<n, m>> per row (-m for h),                *)
(*        tab |-> rows of snapshots followed by the change].                *)
(* gufm1, CALS7K, COV-OBS: B-spline expansions on a plain knot sequence     *)
(*   S = [k |-> order, kn |-> knots in years, c |-> c[i][d]]                *)
(*   with Len(kn) = Len(c) + k; years of 365.25 days.                       *)
(***************************************************************************)
EXTENDS Harmonics, Calendar, BSpline

\* ---- IGRF --------------------------------------------------------------------
IgrfN(I) == Len(I.ep)
IgrfTimes(I) == [k \in 1..(IgrfN(I)+1) |->
    DyearToMjd(IF k <= IgrfN(I) THEN I.ep[k] ELSE FAdd(I.ep[IgrfN(I)], F(5)), TRUE)]
IgrfNode(I, row, k) == IF k <= IgrfN(I) THEN row[k]
                       ELSE FAdd(row[IgrfN(I)], FMulI(row[IgrfN(I)+1], 5))
IgrfRow(I, lab) == I.tab[CHOOSE i \in 1..Len(I.lab) : I.lab[i] = lab]
\* coefficient <<n, m>> at time t between the first and the last instant
IgrfVal(I, lab, t) ==
    LET tm == IgrfTimes(I)
        k == Piece([br |-> tm], t)
        row == IgrfRow(I, lab)
        x == FDiv(FSub(t, tm[k]), FSub(tm[k+1], tm[k]))
        a == IgrfNode(I, row, k)
    IN FAdd(a, FMul(x, FSub(IgrfNode(I, row, k+1), a)))

\* ---- B-spline models -----------------------------------------------------------
SplKnots(S) == [i \in 1..Len(S.kn) |-> DyearToMjd(S.kn[i], FALSE)]
SplVal(S, d, t, nu) == BSplVal(SplKnots(S), S.k, S.c, d, t, nu)
=============================================================================
