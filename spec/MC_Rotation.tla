----------------------------- MODULE MC_Rotation -----------------------------
(* Walk through products of elementary rotations; at every orientation the    *)
(* coefficient matrices represent the same potential, are orthogonal and      *)
(* compose.                                                                    *)
EXTENDS Rotation, IOUtils
Big == IOEnv.RO_BIG = "1"
N == IF Big THEN 5 ELSE 3
Depth == IF Big THEN 5 ELSE 3
VARIABLES B, path
\* rows of an elementary frame: rotation about axis k by a degrees
Elem(k, a) == LET q == FSinCosD(a) s == q[1] c == q[2] IN
    CASE k = 3 -> << <<c, s, F0>>, <<FNeg(s), c, F0>>, <<F0, F0, F1>> >>
      [] k = 1 -> << <<F1, F0, F0>>, <<F0, c, s>>, <<F0, FNeg(s), c>> >>
      [] k = 2 -> << <<c, F0, FNeg(s)>>, <<F0, F1, F0>>, <<s, F0, c>> >>
Gens == {<<1, 90>>, <<2, 90>>, <<3, 37>>, <<2, -71>>}
GenB(g) == TLCEval(Elem(g[1], F(g[2])))
\* frame composition: apply g after B
MulF(G, X) == [i \in 1..3 |-> TLCEval([k \in 1..3 |->
        FAdd(FMul(G[i][1], X[1][k]), FAdd(FMul(G[i][2], X[2][k]), FMul(G[i][3], X[3][k])))])]
Init == B = << <<F1, F0, F0>>, <<F0, F1, F0>>, <<F0, F0, F1>> >> /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ \E g \in Gens : B' = MulF(GenB(g), B) /\ path' = Append(path, g)
Tol == Eps(16)
D == N*(N+2)
Bl == TLCEval(Blocks(B, N))
FrameInv == Orthonormal(B, Eps(20))
Points == << <<F(57), F(23)>>, <<F(121), F(-140)>>, <<F(90), F(200)>>, <<F(15), F(77)>>,
             <<F(163), F(311)>> >>
\* sum_i M[i,j] Y_i(u) = Y_j(B u)
PotentialInv == LET bl == Bl IN \A p \in 1..Len(Points) :
    LET u == TLCEval(Unit(Points[p][1], Points[p][2]))
        Y == TLCEval(HarmAll(u, N))
        Z == TLCEval(HarmAll(Apply(B, u), N))
    IN \A j \in 1..D : Near(FSum([i \in 1..D |-> FMul(MatAt(bl, i, j), Y[i])]), Z[j], Tol)
OrthoInv == LET bl == Bl IN \A n \in 1..N : \A a \in 1..(2*n+1) : \A b \in 1..(2*n+1) :
    Near(FDot([k \in 1..(2*n+1) |-> bl[n][k][a]], [k \in 1..(2*n+1) |-> bl[n][k][b]]),
         IF a = b THEN F1 ELSE F0, Tol)
\* composition with one more generator
HomInv == LET bl == Bl IN \A g \in {<<1, 90>>, <<3, 37>>} :
    LET gl == TLCEval(Blocks(GenB(g), N))
        cl == TLCEval(Blocks(MulF(GenB(g), B), N))
    IN \A n \in 1..N : \A a \in 1..(2*n+1) : \A b \in 1..(2*n+1) :
        Near(cl[n][a][b], FDot(bl[n][a], [k \in 1..(2*n+1) |-> gl[n][k][b]]), Tol)
=============================================================================
