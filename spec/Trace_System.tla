----------------------------- MODULE Trace_System -----------------------------
(* Recorded histories of the package: after every action all that the user can  *)
(* see.  Results are compared with those of the same query in a fresh process    *)
(* (Defs) under the same circumstances.                                         *)
EXTENDS System, SystemQueries, Results, TraceBase
NoAlias == FALSE

RefOk(s, a, r) == /\ r.q = a.q /\ {r.used[i] : i \in 1..Len(r.used)} \subseteq Uses[a.q]
                  /\ \A x \in Uses[a.q] : See(s, x) = <<x, r.vers[x]>>
                  /\ \A key \in CfgKeys : s.cfg[key] = r.vers[key]
RECURSIVE Follow(_, _, _)
Follow(e, s, j) ==
    IF j > Len(e.acts) THEN "ok"
    ELSE LET a == e.acts[j]
             got == e.out.steps[j]
             t == TLCEval(IF Enabled(s, a) THEN Apply(s, a) ELSE s)
             what == IF a.k = "query" THEN a.q ELSE a.k
         IN IF ~Enabled(s, a) THEN "action-not-enabled"
            ELSE IF a.k = "query" /\ ~RefOk(s, a, Defs[got.ref]) THEN "reference-of-other-circumstances"
            ELSE IF got.failed THEN "failed-" \o what
            ELSE IF a.k = "query" /\ ~Same(got.out, Defs[got.ref].out) THEN "result-" \o what
            ELSE IF \E x \in Names : See(t, x) # <<x, got.world[x]>> THEN "modified-" \o what
            ELSE IF \E key \in CfgKeys : t.cfg[key] # got.cfg[key] THEN "config-" \o what
            ELSE IF ~got.globals THEN "global-state-" \o what
            ELSE IF Len(got.intact) # Len(t.held) \/
                    \E i \in 1..Len(t.held) : t.held[i].intact /\ ~got.intact[i] THEN "earlier-result-" \o what
            ELSE Follow(e, t, j+1)
JudgeSystem(e) == IF IsExc(e) THEN "replay-failed" ELSE Follow(e, Begin, 1)
=============================================================================
