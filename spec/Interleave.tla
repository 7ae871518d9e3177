------------------------------ MODULE Interleave ------------------------------
(* Several threads of one program query the same models under the same          *)
(* configuration; each has arrays of its own.  A query proceeds in Phases, in    *)
(* each of which it may read everything it uses; it notes what it reads in a     *)
(* place of its own.  A running query may be interrupted at any phase.           *)
(* `Flaw` is what must not happen: "scratch", queries of one kind share the      *)
(* place of their notes; "temporary", a query changes a model for as long as it   *)
(* runs and puts it back at its end; "none" is the package as it is specified.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Uses, Phases, Flaw

Objects == {"model", "base"}
CfgKeys == {"params.r_surf", "params.dipole", "params.ellipsoid"}
Idle == [k |-> "idle"]

\* own: version of the arrays of every thread; obj: versions of the models
Begin(own, obj, cfg) ==
    [own |-> own, obj |-> obj, cfg |-> cfg, scratch |-> [q \in DOMAIN Uses |-> <<>>],
     run |-> [t \in Threads |-> Idle]]
\* what query q of thread t finds
Finds(s, t, q) == [x \in Uses[q] \cup CfgKeys |->
    IF x \in CfgKeys THEN s.cfg[x] ELSE IF x \in Objects THEN s.obj[x] ELSE s.own[t]]

Running(s, t) == s.run[t].k = "run"
Note(s, t, q, v) == IF Flaw = "scratch" THEN [s EXCEPT !.scratch[q] = v] ELSE [s EXCEPT !.run[t].notes = v]
Notes(s, t, q) == IF Flaw = "scratch" THEN s.scratch[q] ELSE s.run[t].notes
Touched(s, q) == IF Flaw = "temporary" THEN Uses[q] \cap Objects ELSE {}
Take(s, q) == [s EXCEPT !.obj = [x \in Objects |-> IF x \in Touched(s, q) THEN -1 ELSE s.obj[x]]]
Back(s, q, o) == [s EXCEPT !.obj = [x \in Objects |-> IF x \in Touched(s, q) THEN o[x] ELSE s.obj[x]]]

Start(s, t, q) ==
    LET r == [k |-> "run", q |-> q, pc |-> 1, notes |-> <<>>, was |-> s.obj, val |-> <<>>]
        a == [s EXCEPT !.run[t] = r]
    IN Take(Note(a, t, q, Finds(s, t, q)), q)
Last(s, t) == s.run[t].pc + 1 >= Phases
Advance(s, t) == [s EXCEPT !.run[t].pc = @ + 1]
Finish(s, t) == LET r == s.run[t] IN
    Back([s EXCEPT !.run[t] = [k |-> "done", q |-> r.q, val |-> Notes(s, t, r.q)]], r.q, r.was)
\* interrupted: nothing of the query is left
Stop(s, t) == [s EXCEPT !.run[t] = [k |-> "stopped", q |-> s.run[t].q]]
\* a query with nothing in between
Ask(s, t, q) ==
    LET a == Start(s, t, q) IN Finish(a, t)

\* `over`: the query came to its end (it may have fewer phases)
Enabled(s, a) == CASE a.k \in {"start", "ask"} -> ~Running(s, a.t)
                   [] a.k \in {"run", "stop"} -> Running(s, a.t)
Apply(s, a, over) == CASE a.k = "start" -> IF over THEN Ask(s, a.t, a.q) ELSE Start(s, a.t, a.q)
                       [] a.k = "ask" -> Ask(s, a.t, a.q)
                       [] a.k = "run" -> IF over THEN Finish(s, a.t) ELSE Advance(s, a.t)
                       [] a.k = "stop" -> IF over THEN Finish(s, a.t) ELSE Stop(s, a.t)
\* may the query be over, must it be
MustEnd(s, a) == a.k = "ask" \/ (a.k = "run" /\ Last(s, a.t))
=============================================================================
