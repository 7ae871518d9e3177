---------------------------- MODULE MC_Interface ----------------------------
(* All forms of a call: k parameters by position, some optional ones given,    *)
(* some of them with their default; and calls that are no calls.               *)
EXTENDS Interface, TLC, Json, IOUtils
Emit == IOEnv.IF_EMIT = "1"
VARIABLES f, c, truth
vars == <<f, c, truth>>
Nonsense == "nonsense"
Forms(s) ==
    LET P == PosOf(s)
        nr == Len(s.req)
    IN UNION {
        LET byPos == {P[i] : i \in nr+1..k}
            rest == Optional(s) \ byPos
            more == {{}, rest} \cup {{x} : x \in rest}
        IN UNION { LET G == byPos \cup m IN
             { [k |-> k, giv |-> G, dflt |-> d, how |-> h, rev |-> r] :
                 d \in {{}, G} \cup {{x} : x \in G}, h \in {"doc", Nn}, r \in BOOLEAN } : m \in more }
        : k \in 0..Len(P) }
Val(a, p) == <<p, IF p \in a.dflt THEN a.how ELSE "value">>
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Flip(b, q) == IF b THEN Rev(q) ELSE q
Call(s, a) ==
    LET P == PosOf(s)
        isIn(p) == \/ \E i \in a.k+1..Len(s.req) : s.req[i] = p
                   \/ p \in a.giv /\ \A i \in 1..a.k : P[i] # p
        all == P \o KwOf(s)
    IN [pos |-> [i \in 1..a.k |-> Val(a, P[i])],
        named |-> Flip(a.rev, LET n == SelectSeq(all, isIn) IN [i \in 1..Len(n) |-> <<n[i], Val(a, n[i])>>])]
Wrong(s) ==
    LET all0 == Call(s, [k |-> 0, giv |-> {}, dflt |-> {}, how |-> Nn, rev |-> FALSE])
    IN (IF s.any THEN {} ELSE {[all0 EXCEPT !.named = Append(@, <<Nonsense, <<Nonsense, "value">>>>)]})
       \cup {[all0 EXCEPT !.named = SelectSeq(@, LAMBDA x : x[1] # s.req[i])] : i \in 1..Len(s.req)}
       \cup {[pos |-> <<<<p, "value">>>>, named |-> all0.named] : p \in IF s.req = <<>> THEN {} ELSE {s.req[1]}}
Init == /\ f \in DOMAIN Sigs
        /\ \/ \E a \in Forms(Sigs[f]) :
                /\ (a.dflt = {} => a.how = Nn)
                /\ ~(f \in Strict /\ a.dflt # {} /\ a.how = Nn)
                /\ c = TLCEval(Call(Sigs[f], a))
                /\ truth = [ok |-> TRUE, args |-> {<<p, <<p, "value">>>> : p \in Rng(Sigs[f].req) \cup (a.giv \ a.dflt)}]
           \/ c \in Wrong(Sigs[f]) /\ ~(f \in DOMAIN Helped /\ c.pos = <<>> /\ Helped[f] \notin Rng(NamesOf(c.named))) /\ truth = NoCall
Next == UNCHANGED vars
\* every form means what it was made from
BindInv == Bind(Sigs[f], c) = truth
\* names are told apart
SigInv == LET s == Sigs[f]
              a == PosOf(s) \o KwOf(s) IN Cardinality(Rng(a)) = Len(a)
EmitInv == Emit => PrintT(<<"BEHAVIOUR", ToJson([f |-> f, c |-> c])>>)
=============================================================================
