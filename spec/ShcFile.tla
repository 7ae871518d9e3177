------------------------------ MODULE ShcFile ------------------------------
(***************************************************************************)
(* SHC files.  A file is a sequence of lines                                *)
(*   [c |-> first character ("" if none), tok |-> numbers on the line].     *)
(* Lines that start with a comment character carry nothing.  Of the others  *)
(* the first one holds nmin nmax N order step, the second the N times in    *)
(* decimal years and each further one  n m v_1 ... v_N  with -m for h_n^m.  *)
(***************************************************************************)
EXTENDS Harmonics, Calendar, BSpline

\* ---- reading ---------------------------------------------------------------
RECURSIVE DataRec(_, _, _, _)
DataRec(lines, cs, i, acc) ==
    IF i > Len(lines) THEN acc
    ELSE DataRec(lines, cs, i+1, IF lines[i].c \in cs THEN acc ELSE Append(acc, lines[i].tok))
DataLines(lines, cs) == DataRec(lines, cs, 1, <<>>)
Par(L, k) == FFloor(L[1][k])                       \* nmin, nmax, N, order, step
ShcTimes(L) == L[2]
ShcRow(L, i) == LET r == L[2 + i] IN [n |-> FFloor(r[1]), m |-> FFloor(r[2]),
                                      v |-> SubSeq(r, 3, Len(r))]
ShcRows(L) == Len(L) - 2
\* order of the rows: n, and within a degree 0, 1, -1, 2, -2, ...
RowLabel(w) == IF w[3] = 1 THEN <<w[1], -w[2]>> ELSE <<w[1], w[2]>>
RowOrder(nmin, nmax) == [i \in 1..WindowDim(nmin, nmax, nmax) |-> RowLabel(Window(nmin, nmax, nmax)[i])]
WellFormed(L) ==
    /\ Len(L) >= 2 /\ Len(L[1]) = 5
    /\ Len(L[2]) = Par(L, 3)
    /\ ShcRows(L) = WindowDim(Par(L, 1), Par(L, 2), Par(L, 2))
    /\ \A i \in 1..ShcRows(L) : Len(L[2+i]) = 2 + Par(L, 3)
    /\ LET ro == TLCEval(RowOrder(Par(L, 1), Par(L, 2))) IN
       \A i \in 1..ShcRows(L) : <<ShcRow(L, i).n, ShcRow(L, i).m>> = ro[i]

\* ---- writing ---------------------------------------------------------------
\* co[k][i] coefficient i (from degree one) of snapshot k
ShcWrite(times, co, order, nmin, nmax, leap) ==
    LET w == RowOrder(nmin, nmax) IN
    << <<F(nmin), F(nmax), F(Len(times)), F(order), F(order-1)>>,
       [k \in 1..Len(times) |-> MjdToDyear(times[k], leap)] >> \o
    [i \in 1..Len(w) |-> <<F(w[i][1]), F(w[i][2])>> \o
                         [k \in 1..Len(times) |-> co[k][nmin*nmin - 1 + i]]]

\* ---- models ----------------------------------------------------------------
\* instants at which a model of the given order is tabulated: every piece is
\* divided into order - 1 equal parts (order one: starts of the pieces)
ShcSamples(br, order) ==
    IF order = 1 THEN SubSeq(br, 1, Len(br)-1)
    ELSE LET s == order - 1 IN
         [k \in 1..((Len(br)-1)*s + 1) |->
             IF k = (Len(br)-1)*s + 1 THEN br[Len(br)]
             ELSE LET p == (k-1) \div s + 1
                      j == (k-1) % s
                  IN FAdd(br[p], FDivI(FMulI(FSub(br[p+1], br[p]), j), s))]
\* breaks of the model tabulated in a file; additional sites at the end are ignored
ShcBreaks(mjd, order, step) ==
    IF order = 1 THEN mjd ELSE [p \in 1..((Len(mjd) - 1) \div step + 1) |-> mjd[(p-1)*step + 1]]
\* value of the linear interpolation (order two) and of the step function (order one)
LinVal(mjd, v, t) ==
    LET k == Piece([br |-> mjd], t)
    IN FAdd(v[k], FMul(FSub(v[k+1], v[k]), FDiv(FSub(t, mjd[k]), FSub(mjd[k+1], mjd[k]))))
=============================================================================
