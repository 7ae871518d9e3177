--------------------------- MODULE Trace_Interleave ---------------------------
(* Recorded schedules: after every action all that the threads share, and the    *)
(* outcome of every query that ended, compared with that of the same query in a   *)
(* process of its own (Defs).                                                    *)
EXTENDS Interleave, SystemQueries, Results, TraceBase
NoFlaw == "none"
MThreads == 1..3
MPhases == 4
RefOk(s, t, q, r) == LET f == Finds(s, t, q) IN
    r.q = q /\ {r.used[i] : i \in 1..Len(r.used)} \subseteq Uses[q] /\ \A x \in DOMAIN f : f[x] = r.vers[x]
QOf(s, a) == IF a.k \in {"start", "ask"} THEN a.q ELSE s.run[a.t].q
RECURSIVE Follow(_, _, _)
Follow(e, s, j) ==
    IF j > Len(e.acts) THEN IF \E t \in Threads : Running(s, t) THEN "left-running" ELSE "ok"
    ELSE LET a == e.acts[j]
             got == e.out.steps[j-1]
             over == got.status = "done"
         IN IF ~Enabled(s, a) THEN "action-not-enabled"
            ELSE LET q == QOf(s, a)
                     u == TLCEval(Apply(s, a, over))
                     what == q \o "-" \o a.k
                 IN IF MustEnd(s, a) /\ ~over THEN "does-not-end-" \o what
                    ELSE IF over /\ ~RefOk(s, a.t, q, Defs[got.ref]) THEN "reference-of-other-circumstances"
                    ELSE IF over /\ ~Same(got.out, Defs[got.ref].out) THEN "result-" \o what
                    ELSE IF \E x \in Objects : u.obj[x] # got.obj[x] THEN "modified-model-" \o what
                    ELSE IF \E t \in Threads : u.own[t] # got.own[t] THEN "modified-array-" \o what
                    ELSE IF \E key \in CfgKeys : u.cfg[key] # got.cfg[key] THEN "config-" \o what
                    ELSE IF ~got.globals THEN "global-state-" \o what
                    ELSE Follow(e, u, j+1)
First(e) == LET b == e.acts[1] IN
    Begin([t \in Threads |-> b.own[t]], [x \in Objects |-> b.obj[x]], [key \in CfgKeys |-> b.cfg[key]])
JudgeInterleave(e) == IF IsExc(e) THEN "replay-failed" ELSE Follow(e, First(e), 2)
=============================================================================
