---------------------------- MODULE MC_Interleave ----------------------------
(* All interleavings of two (three) small queries with interruptions at any      *)
(* phase (IL_EMIT=0), or schedules over the real catalogue to be replayed into   *)
(* the code (IL_EMIT=1).                                                         *)
EXTENDS Interleave, SystemQueries, Json, IOUtils
Depth == atoi(IOEnv.IL_DEPTH)
Emit == IOEnv.IL_EMIT = "1"
MFlaw == IOEnv.IL_FLAW
MThreads == 1..atoi(IOEnv.IL_THREADS)
MPhases == 4
Small == [f |-> {"x"}, m |-> {"model", "x"}]
\* the figures of pyplot belong to the whole program
Figures == {"timeseries", "plot_spectrum", "maps"}
MUses == IF Emit THEN Catalogue ELSE Small
\* queries of one schedule: related ones, or a kind in all threads
Groups == IF ~Emit THEN {DOMAIN Small}
          ELSE {Families[j] \ Figures : j \in 1..Len(Families)} \cup {{q} : q \in DOMAIN Catalogue}
VARIABLES s, s0, hist, n, want, group
vars == <<s, s0, hist, n, want, group>>
Vers == IF Emit THEN 0..2 ELSE 0..1
Init == /\ \E own \in [MThreads -> Vers], obj \in [Objects -> 0..1], cfg \in [CfgKeys -> IF Emit THEN 0..1 ELSE {0}] :
              /\ s = Begin(own, obj, cfg) /\ s0 = s
              /\ hist = <<[k |-> "begin", own |-> own, obj |-> obj, cfg |-> cfg]>>
        /\ n = 0 /\ want = "" /\ group \in Groups
Did(a, over) == /\ n < Depth /\ n' = (IF Emit THEN n+1 ELSE n) /\ want' = "" /\ UNCHANGED <<s0, group>>
                /\ Enabled(s, a) /\ (MustEnd(s, a) => over) /\ (a.k = "stop" => ~over)
                /\ s' = TLCEval(Apply(s, a, over))
                /\ hist' = IF Emit THEN Append(hist, a) ELSE hist
Qs == IF Emit THEN group ELSE DOMAIN Small
Able(t, q) == q \in Figures => t = 1
AStart == \E t \in MThreads, q \in Qs : Able(t, q) /\ Did([k |-> "start", t |-> t, q |-> q], FALSE)
AAsk == \E t \in MThreads, q \in Qs : Able(t, q) /\ Did([k |-> "ask", t |-> t, q |-> q], TRUE)
ARun == \E t \in MThreads : \E over \in (IF Emit THEN {Running(s, t) /\ Last(s, t)} ELSE BOOLEAN) :
            Did([k |-> "run", t |-> t], over)
AStop == \E t \in MThreads : Did([k |-> "stop", t |-> t], FALSE)
Weights == <<"start", "start", "start", "ask", "run", "run", "run", "run", "stop">>
Open(k) == CASE k \in {"start", "ask"} -> \E t \in MThreads : ~Running(s, t)
             [] OTHER -> \E t \in MThreads : Running(s, t)
Choose == /\ Emit /\ want = "" /\ n < Depth
          /\ \E j \in 1..Len(Weights) : Open(Weights[j]) /\ want' = Weights[j]
          /\ UNCHANGED <<s, s0, hist, n, group>>
Turn(k) == ~Emit \/ want = k
Next == \/ Choose
        \/ Turn("start") /\ AStart
        \/ Turn("ask") /\ AAsk
        \/ Turn("run") /\ ARun
        \/ Turn("stop") /\ AStop

\* nobody ever sees a model, an array or a setting changed
SharedInv == s.own = s0.own /\ s.obj = s0.obj /\ s.cfg = s0.cfg
\* a query that ended delivers what it delivers alone
AloneInv == \A t \in MThreads : s.run[t].k = "done" => s.run[t].val = Finds(s0, t, s.run[t].q)
\* nobody waits for anybody
FreeInv == \A t \in MThreads : Running(s, t) => Enabled(s, [k |-> "run", t |-> t])
EmitInv == (Emit /\ n = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
