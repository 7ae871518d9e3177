------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* Real Fourier synthesis of the entries of a time-dependent matrix.        *)
(* S = [freq |-> [shape, data], spec |-> [shape, re, im], scaled |-> BOOL]: *)
(* spec has shape <<K, rows, columns>>, freq has K or K*rows*columns values *)
(* in oscillations per day.                                                 *)
(***************************************************************************)
EXTENDS Complex

RECURSIVE SynRec(_, _, _, _, _, _, _)
SynRec(e, t, K, S, q, k, acc) ==       \* acc = <<value, tolerance>>
    IF k > K THEN acc
    ELSE LET x == (k-1)*S + q
             f == IF Len(e.freq.shape) = 1 THEN e.freq.data[k] ELSE e.freq.data[x]
             re == e.spec.re[x] im == e.spec.im[x]
         IN IF re[1] = 0 /\ im[1] = 0 THEN SynRec(e, t, K, S, q, k+1, acc)
            ELSE LET arg == FMul(FMul(FTwoPi, f), t)
                     sc == FSinCos(arg)
                     w == IF ~e.scaled /\ FLt(F0, f) THEN 2 ELSE 1
                     v == FMulI(FSub(FMul(re, sc[2]), FMul(im, sc[1])), w)
                     a == FMulI(FAdd(FAbs(re), FAbs(im)), 2)
                 IN SynRec(e, t, K, S, q, k+1,
                      <<FAdd(acc[1], v),
                        FAdd(acc[2], FMul(a, FAdd(Eps(11), FMul(FAbs(arg), FMulI(Eps(15), 2)))))>>)
\* entry q (row-major, 1-based) at time t: <<value, tolerance>>
Synth(e, t, q) ==
    SynRec(e, t, e.spec.shape[1], e.spec.shape[2]*e.spec.shape[3], q, 1, <<F0, Eps(13)>>)
=============================================================================
