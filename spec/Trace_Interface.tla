-------------------------- MODULE Trace_Interface --------------------------
(* Recorded calls of public functions in all their forms.  A call that the     *)
(* specification understands as the same assignment of parameters as the       *)
(* reference (everything by name, no defaults spelled out) has its result; a    *)
(* call that it does not understand is rejected with an exception.                *)
EXTENDS Interface, Results, TraceBase
Sig(e) == Sigs[e.f]
RefIs(e) == LET r == Defs[e.ref] IN
    /\ r.f = e.f /\ r.c.pos = <<>> /\ Bind(Sig(e), r.c) = Bind(Sig(e), e.c)
    /\ \A i \in 1..Len(r.c.named) : r.c.named[i][2][2] = "value"
JudgeC(e) ==
    LET b == TLCEval(Bind(Sig(e), e.c)) IN
    IF ~b.ok THEN IF e.out.k = "exc" THEN "ok" ELSE "wrong-call-accepted-" \o e.f
    ELSE IF ~RefIs(e) THEN "reference-of-another-call"
    ELSE IF Defs[e.ref].out.k = "exc" /\ Defs[e.ref].out.form = "TypeError" THEN "call-by-name-" \o e.f
    ELSE IF ~Same(e.out, Defs[e.ref].out) THEN "call-" \o e.f
    ELSE "ok"
=============================================================================
