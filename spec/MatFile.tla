------------------------------ MODULE MatFile ------------------------------
(***************************************************************************)
(* The layout of CHAOS MAT-files.  A model in memory:                       *)
(*  [pp   |-> [br, c[k][p][d]]        time-dependent internal part           *)
(*   stat |-> coefficients            (<<>>: part is missing)                *)
(*   ext  |-> <<[sm, gsm, b10, q10, b11, q11, s11]>> or <<>>                 *)
(*   eul  |-> <<[sat, br, c]>>        names, breaks, bins of three angles    *)
(*   cal  |-> <<[br, c]>>             bins of nine parameters                *)
(*   pre  |-> <<matrix>> ]            pre-rotation angles, row per satellite *)
(* Numbers are only moved around, never computed with.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Order(M) == Len(M.pp.c)
Pieces(M) == Len(M.pp.br) - 1
Dim(M) == Len(M.pp.c[1][1])
Column(c, j) == [p \in 1..Len(c) |-> c[p][j]]
\* breaks of a single bin at one instant are stored once
Shrink(br) == IF br[1] = br[Len(br)] THEN <<br[1]>> ELSE br
Widen(br) == IF Len(br) = 1 THEN <<br[1], br[1]>> ELSE br

\* ---- in the file -------------------------------------------------------------
ToMat(M) ==
    [pp |-> [order |-> Order(M), pieces |-> Pieces(M), dim |-> Dim(M), breaks |-> M.pp.br,
             coefs |-> [r \in 1..(Pieces(M)*Dim(M)) |->
                        [k \in 1..Order(M) |-> M.pp.c[k][(r-1) \div Dim(M) + 1][((r-1) % Dim(M)) + 1]]]],
     g |-> M.stat,
     model_ext |-> [i \in 1..Len(M.ext) |-> LET x == M.ext[i] IN
        [m_Dst |-> SubSeq(x.sm, 1, 3), m_sm |-> SubSeq(x.sm, 4, Len(x.sm)),   \* without means
         m_gsm |-> <<x.gsm[1], x.gsm[4]>>,
         t_break_q10 |-> x.b10, q10 |-> x.q10, t_break_qs11 |-> x.b11,
         qs11 |-> [p \in 1..Len(x.q11) |-> <<x.q11[p], x.s11[p]>>]]],
     model_Euler |-> [i \in 1..Len(M.eul) |-> LET x == M.eul[i] IN
        [t_break |-> [s \in 1..Len(x.sat) |-> Shrink(x.br[s])],
         alpha |-> [s \in 1..Len(x.sat) |-> Column(x.c[s], 1)],
         beta |-> [s \in 1..Len(x.sat) |-> Column(x.c[s], 2)],
         gamma |-> [s \in 1..Len(x.sat) |-> Column(x.c[s], 3)]]],
     pp_CAL |-> [i \in 1..Len(M.cal) |-> LET x == M.cal[i] IN
        [breaks |-> x.br, coefs |-> [r \in 1..(9*Len(x.c)) |-> x.c[(r-1) \div 9 + 1][((r-1) % 9) + 1]]]],
     pre |-> M.pre]

\* ---- from the file, satellites being called `names` ---------------------------
Names(names, n, generic(_)) == [s \in 1..n |-> IF s <= Len(names) THEN names[s] ELSE generic(s)]
FromMat(D, names, generic(_), zero) ==
    LET P == D.pp.pieces N == D.pp.dim IN
    [pp |-> [br |-> Widen(D.pp.breaks),
             c |-> [k \in 1..D.pp.order |-> [p \in 1..P |-> [d \in 1..N |-> D.pp.coefs[(p-1)*N + d][k]]]]],
     stat |-> D.g,
     ext |-> [i \in 1..Len(D.model_ext) |-> LET x == D.model_ext[i] IN
        [sm |-> x.m_Dst \o x.m_sm,
         gsm |-> [j \in 1..8 |-> IF j = 1 THEN x.m_gsm[1] ELSE IF j = 4 THEN x.m_gsm[2] ELSE zero],
         b10 |-> Widen(x.t_break_q10), q10 |-> x.q10, b11 |-> Widen(x.t_break_qs11),
         q11 |-> Column(x.qs11, 1), s11 |-> Column(x.qs11, 2)]],
     eul |-> [i \in 1..Len(D.model_Euler) |-> LET x == D.model_Euler[i] n == Len(x.t_break) IN
        [sat |-> Names(names, n, generic), br |-> [s \in 1..n |-> Widen(x.t_break[s])],
         c |-> [s \in 1..n |-> [p \in 1..Len(x.alpha[s]) |-> <<x.alpha[s][p], x.beta[s][p], x.gamma[s][p]>>]]]],
     cal |-> [i \in 1..Len(D.pp_CAL) |-> LET x == D.pp_CAL[i] IN
        [br |-> Widen(x.breaks), c |-> [p \in 1..(Len(x.coefs) \div 9) |-> [j \in 1..9 |-> x.coefs[9*(p-1) + j]]]]],
     pre |-> D.pre]
=============================================================================
