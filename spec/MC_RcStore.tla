---------------------------- MODULE MC_RcStore ----------------------------
(* Every sequence of writes, conversions, removals, configuration changes and *)
(* queries.  `truth` follows, independently of the file contents, which table *)
(* a path was last given.  Also used to generate behaviours for the code.     *)
EXTENDS RcStore, TLC, Json, IOUtils
Depth == atoi(IOEnv.RC_DEPTH)
Emit == IOEnv.RC_EMIT = "1"
VARIABLES st, hist, resp, truth, n
vars == <<st, hist, resp, truth, n>>
Paths == {"a", "b", "q"}
Ids == 1..2
Acts == [k : {"write"}, p : {"a", "b"}, fmt : {"text", "h5"}, id : Ids]
        \cup [k : {"junk", "remove", "load", "configure"}, p : {"a", "b"}]
        \cup [k : {"convert"}, p : {"a", "b"}, q : {"a", "b", "q"}]
        \cup {[k |-> "query"]}
Init == /\ st = Empty(Paths, "a") /\ hist = <<>> /\ resp = <<"ok">> /\ n = 0
        /\ truth = [p \in Paths |-> 0]
Step(a) == LET r == TLCEval(Apply(st, a)) IN
    /\ st' = r[1] /\ resp' = r[2] /\ n' = n + 1
    /\ hist' = IF Emit THEN Append(hist, a) ELSE <<a>>
    /\ truth' = CASE a.k = "write" -> [truth EXCEPT ![a.p] = a.id]
                  [] a.k \in {"junk", "remove"} -> [truth EXCEPT ![a.p] = 0]
                  [] a.k = "convert" /\ r[2] = <<"ok">> -> [truth EXCEPT ![a.q] = truth[a.p]]
                  [] OTHER -> truth
Next == n < Depth /\ \E a \in Acts : Step(a)
Last == hist[Len(hist)]
\* whatever is read from a file is what the path was last given
TruthInv == \A p \in Paths : IF truth[p] = 0 THEN ~HasTable(st.fs[p])
                             ELSE HasTable(st.fs[p]) /\ st.fs[p][2] = truth[p]
AnswerInv == hist # <<>> /\ Last.k = "query" =>
    resp = IF truth[st.conf] = 0 THEN <<"error">> ELSE <<"table", truth[st.conf]>>
\* no conversion output in a folder that does not exist
FolderInv == st.fs["q"] = <<"none">>
\* a refused action changes nothing
FrameProp == [][resp' \in {<<"error">>, <<"warning">>} => st' = st]_vars
EmitInv == (Emit /\ n = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
