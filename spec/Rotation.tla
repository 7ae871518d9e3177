------------------------------ MODULE Rotation ------------------------------
(***************************************************************************)
(* Matrices that take the Gauss coefficients given in a rotated frame to   *)
(* geographic coefficients of the same potential.  A frame is three base   *)
(* vectors (rows, geographic components).                                  *)
(*                                                                         *)
(* The degree-n block is built from the degree-1 block by the recursion of *)
(* Ivanic and Ruedenberg (1996, corrected 1998); MC_Rotation checks it     *)
(* against the defining property, equality of the potentials, and the      *)
(* group laws while walking through compositions of rotations.             *)
(***************************************************************************)
EXTENDS Harmonics, Frames

\* column/row index in a degree block by the signed order -n..n
At(R, n, a, b) == R[a+n+1][b+n+1]

\* degree 1 in signed order: -1 -> h11 (y), 0 -> g10 (z), 1 -> g11 (x);
\* M[row = geographic][column = frame] = component of the base vector
Cmp(s) == CASE s = -1 -> 2 [] s = 0 -> 3 [] s = 1 -> 1
Block1(B) == [a \in 1..3 |-> TLCEval([b \in 1..3 |-> B[Cmp(b-2)][Cmp(a-2)]])]

SqQ(p, q) == FSqrt(FQ(p, q))
IAbs(x) == IF x < 0 THEN -x ELSE x

PIR(r, L, i, a, b, R) ==                     \* R: block of degree L-1
    IF b = L THEN FSub(FMul(At(r, 1, i, 1), At(R, L-1, a, L-1)),
                       FMul(At(r, 1, i, -1), At(R, L-1, a, 1-L)))
    ELSE IF b = -L THEN FAdd(FMul(At(r, 1, i, 1), At(R, L-1, a, 1-L)),
                             FMul(At(r, 1, i, -1), At(R, L-1, a, L-1)))
    ELSE FMul(At(r, 1, i, 0), At(R, L-1, a, b))

VTerm(r, L, m, n, R) ==
    IF m = 0 THEN FAdd(PIR(r, L, 1, 1, n, R), PIR(r, L, -1, -1, n, R))
    ELSE IF m = 1 THEN FMul(SqrtI(2), PIR(r, L, 1, 0, n, R))
    ELSE IF m = -1 THEN FMul(SqrtI(2), PIR(r, L, -1, 0, n, R))
    ELSE IF m > 0 THEN FSub(PIR(r, L, 1, m-1, n, R), PIR(r, L, -1, 1-m, n, R))
    ELSE FAdd(PIR(r, L, 1, m+1, n, R), PIR(r, L, -1, -m-1, n, R))
WTerm(r, L, m, n, R) ==
    IF m > 0 THEN FAdd(PIR(r, L, 1, m+1, n, R), PIR(r, L, -1, -m-1, n, R))
    ELSE FSub(PIR(r, L, 1, m-1, n, R), PIR(r, L, -1, 1-m, n, R))

Entry(r, L, m, n, R) ==
    LET den == IF IAbs(n) < L THEN (L+n)*(L-n) ELSE 2*L*(2*L-1)
        am == IAbs(m)
        u == IF (L+m)*(L-m) = 0 THEN F0
             ELSE FMul(SqQ((L+m)*(L-m), den), PIR(r, L, 0, m, n, R))
        v == FMul(FMul(IF m = 0 THEN FNeg(SqQ(2*(L-1)*L, den)) ELSE SqQ((L+am-1)*(L+am), den),
                       FQ(1, 2)), VTerm(r, L, m, n, R))
        w == IF m = 0 \/ (L-am-1)*(L-am) = 0 THEN F0
             ELSE FMul(FMul(SqQ((L-am-1)*(L-am), den), FQ(-1, 2)), WTerm(r, L, m, n, R))
    IN FAdd(u, FAdd(v, w))

NextBlock(r, L, R) ==
    [a \in 1..(2*L+1) |-> TLCEval([b \in 1..(2*L+1) |-> Entry(r, L, a-L-1, b-L-1, R)])]
RECURSIVE BlocksRec(_, _, _, _)
BlocksRec(r, N, L, acc) ==
    IF L > N THEN acc
    ELSE BlocksRec(r, N, L+1, TLCEval(Append(acc, TLCEval(NextBlock(r, L, acc[L-1])))))
\* blocks of degrees 1..N
Blocks(B, N) == IF N = 0 THEN <<>> ELSE BlocksRec(TLCEval(Block1(B)), N, 2, <<TLCEval(Block1(B))>>)

\* natural order g_n0, g_n1, h_n1, ...: <<degree, signed order>> of index i
DegOf(i) == CHOOSE n \in 1..21 : n*n <= i /\ i < (n+1)*(n+1)
OrdOf(i) == LET n == DegOf(i) k == i - n*n IN      \* k = 0 .. 2n
            IF k = 0 THEN 0 ELSE IF k % 2 = 1 THEN (k+1) \div 2 ELSE -(k \div 2)
IdxTab == [i \in 1..440 |-> <<DegOf(i), OrdOf(i)>>]

\* entry (row i, column j) of the coefficient matrix
MatAt(Bl, i, j) == LET a == IdxTab[i] b == IdxTab[j] IN
    IF a[1] # b[1] THEN F0 ELSE At(Bl[a[1]], a[1], a[2], b[2])

\* surface harmonic of index i at a unit vector u = (x, y, z), |sin| > 0
Harm(T, i, cm, sm) == LET a == IdxTab[i] IN
    IF a[2] >= 0 THEN FMul(TabAt(T, a[1], a[2]), cm[a[2]+1])
    ELSE FMul(TabAt(T, a[1], -a[2]), sm[-a[2]+1])
RECURSIVE CmRec(_, _, _, _, _)
CmRec(c, s, N, k, acc) == IF k > N THEN acc
    ELSE CmRec(c, s, N, k+1, Append(acc,
           << FSub(FMul(acc[k][1], c), FMul(acc[k][2], s)), FAdd(FMul(acc[k][2], c), FMul(acc[k][1], s)) >>))
HarmAll(u, N) ==
    LET st == FSqrt(FAdd(FSq(u[1]), FSq(u[2])))
        c == IF st[1] = 0 THEN F1 ELSE FDiv(u[1], st)
        s == IF st[1] = 0 THEN F0 ELSE FDiv(u[2], st)
        T == TLCEval(PTable(st, u[3], N))
        mm == TLCEval(CmRec(c, s, N, 1, <<<<F1, F0>>>>))
        cm == [k \in 1..(N+1) |-> mm[k][1]]
        sm == [k \in 1..(N+1) |-> mm[k][2]]
    IN [i \in 1..(N*(N+2)) |-> Harm(T, i, cm, sm)]
=============================================================================
