------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation of independent call events.  The recorded events are   *)
(* consumed in `Chains` interleaved chains (so that TLC's workers share    *)
(* the load); each step is one recorded call of the implementation and its *)
(* verdict is "ok" or the name of the specification clause it breaks.      *)
(* Verdicts are total: a bad event does not stop the rest from being       *)
(* judged.                                                                 *)
(***************************************************************************)
EXTENDS Fx, TLC, Json, IOUtils

CONSTANT Judge(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == atoi(IOEnv.CHAINS)
\* objects (models, knot vectors, ...) that many events refer to by index
Defs == ndJsonDeserialize(IOEnv.DEFS)

VARIABLES pos, verdict

Init == pos \in { -c : c \in 1..Chains } /\ verdict = "start"

Report(j, v) == /\ PrintT(<<"JUDGED", j>>)
                /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", j, v>>)

Step(j) == /\ j <= Len(Trace)
           /\ pos' = j
           /\ verdict' = Judge(Trace[j])
           /\ Report(j, verdict')

Next == Step(IF pos < 0 THEN -pos ELSE pos + Chains)

\* ---- helpers shared by the judges --------------------------------------
\* first failing clause of a sequence of <<condition, name>> pairs.  Clauses
\* are evaluated in order, later ones may rely on earlier ones.
\* (written out because TLC evaluates LET-bound functions eagerly)
IsExc(e) == e.out.k = "exc"
IsOk(e) == e.out.k = "ok"

\* Row-major index arithmetic over shapes
RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i+1)
Size(s) == ProdFrom(s, 1)

\* numpy broadcasting of two shapes: <<"ok", shape>> or <<"err">>
Pad(s, n) == [k \in 1..(n - Len(s)) |-> 1] \o s
BroadcastOk(s, t) == LET n == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
                         a == Pad(s, n)
                         b == Pad(t, n)
                     IN \A k \in 1..n : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
Broadcast(s, t) == LET n == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
                       a == Pad(s, n)
                       b == Pad(t, n)
                   IN [k \in 1..n |-> IF a[k] = 1 THEN b[k] ELSE a[k]]

\* multi-index (0-based, as sequence) of flat position p (0-based) in shape s
RECURSIVE Unravel(_, _)
Unravel(p, s) == IF Len(s) = 0 THEN <<>>
                 ELSE LET d == s[Len(s)] IN
                      Append(Unravel(p \div d, SubSeq(s, 1, Len(s)-1)), p % d)
RECURSIVE RavelRec(_, _, _, _)
RavelRec(mi, s, i, acc) == IF i > Len(s) THEN acc
                           ELSE RavelRec(mi, s, i+1, acc * s[i] + mi[i])
\* flat position (0-based) in shape s of the broadcast multi-index mi
BFlat(mi, s) == LET off == Len(mi) - Len(s)
                    own == [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE mi[off + k]]
                IN RavelRec(own, s, 1, 0)
\* element of a flat array [shape, data] at broadcast multi-index mi
BAt(a, mi) == a.data[BFlat(mi, a.shape) + 1]
=============================================================================
