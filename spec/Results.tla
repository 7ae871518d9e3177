------------------------------- MODULE Results -------------------------------
(* What a query delivers, as recorded: its form (names, types, shapes, texts) and *)
(* the numbers of its leaves.                                                    *)
EXTENDS Fx
\* numbers of a leaf agree to 1e-9 of its largest one
RECURSIVE MaxAbs(_, _, _)
MaxAbs(v, i, m) == IF i > Len(v) THEN m ELSE MaxAbs(v, i+1, FMax(m, FAbs(v[i])))
CloseLeaf(v, w) == /\ Len(v) = Len(w)
                   /\ v = w \/ LET tol == FMul(MaxAbs(w, 1, F0), Eps(9))
                               IN \A i \in 1..Len(v) : Near(v[i], w[i], tol)
Same(a, b) == /\ a.k = b.k /\ a.form = b.form /\ Len(a.leaves) = Len(b.leaves)
              /\ \A i \in 1..Len(a.leaves) : CloseLeaf(a.leaves[i], b.leaves[i])
=============================================================================
