---------------------------- MODULE MC_Config ----------------------------
(* Every short sequence of operations on part of the configuration; with      *)
(* CFG_EMIT=1 behaviours over all keys to be replayed into the code.          *)
(* `entry` follows the values at entry of the open contexts independently.     *)
EXTENDS Config, TLC, Json, IOUtils
Depth == atoi(IOEnv.CFG_DEPTH)
Emit == IOEnv.CFG_EMIT = "1"
Mode == IOEnv.CFG_MODE                  \* "ops" or "ctx"
VARIABLES st, hist, resp, entry, saved, n, want
vars == <<st, hist, resp, entry, saved, n, want>>
Files == {"c", "d"}
LibFiles == {"lib/frequency_spectrum_gsm.npz", "lib/frequency_spectrum_sm.npz",
             "lib/Earth_conductivity.dat", "lib/ne_110m_coastline.zip"}
MKeys == IF Emit THEN Keys \cup {"params.unknown", "r_surf", ""}
         ELSE IF Mode = "ctx" THEN {"params.r_surf", "params.dipole", "params.unknown"}
         ELSE {"params.r_surf", "params.dipole", "file.SM_spectrum", "params.unknown"}
MRaws == IF Emit
    THEN {Raw0, Junk, NoneText, Num("10.0", "10"), Num("3480.5", ""), Num("-2.0", "-2"), Num("0.0", "0"),
          Txt("12", "12.0", "12", FALSE), Txt("7.25", "7.25", "", TRUE), Txt("1e3", "1000.0", "", FALSE),
          Txt("CHAOS-8.1", "", "", TRUE), Txt("abc", "", "", FALSE), Txt("", "", "", FALSE),
          Vec(<<"1.0", "2.0", "3.0">>), Vec(<<"-0.5", "0.25", "1e+20">>), Vec(<<"6400.0", "6300.0">>),
          Vec(<<"6378.137", "6356.752">>), Vec(<<"1.0", "2.0", "3.0", "4.0">>), Vec(<<>>),
          Pth("a"), Pth("b"), Pth("missing"), Pth("lib/frequency_spectrum_sm.npz")}
    ELSE IF Mode = "ctx" THEN {Num("10.0", "10"), Num("11.5", ""), Vec(<<"1.0", "2.0", "3.0">>)}
    ELSE {Raw0, Num("10.0", "10"), Vec(<<"1.0", "2.0", "3.0">>), Pth("a")}
Pick(key) == {r \in MRaws : key \in Keys => Specified(KindOf(key), r)}
\* contents that a user writes
Contents == {<<"junk">>, <<"json", <<>>>>,
             <<"json", [key \in {"params.r_surf"} |-> Num("10.0", "10")]>>,
             <<"json", [key \in {"params.dipole", "file.SM_spectrum"} |->
                        IF key = "params.dipole" THEN Vec(<<"1.0", "2.0", "3.0">>) ELSE Pth("a")]>>,
             <<"json", [key \in {"params.r_surf", "params.dipole"} |->
                        IF key = "params.dipole" THEN Vec(<<"1.0", "2.0">>) ELSE Num("10.0", "10")]>>,
             <<"json", [key \in {"params.r_surf", "params.unknown"} |-> Num("11.5", "")]>>}
VecKeys == {key \in MKeys : key \in Keys /\ KindOf(key) \in {"vec2", "vec3"}}
Init == /\ st = Start(LibFiles, Files) /\ hist = <<>> /\ resp = "ok" /\ n = 0 /\ entry = <<>>
        /\ saved = [p \in Files |-> <<>>] /\ want = ""
Did(a, r) == /\ st' = r[1] /\ resp' = r[2] /\ n' = n + 1 /\ want' = ""
             /\ hist' = IF Emit THEN Append(hist, a) ELSE <<a>>
Same == UNCHANGED <<entry, saved>>
Do(a) == n < Depth /\ Did(a, TLCEval(Apply(st, a))) /\ Same
Max == IF Mode = "ctx" THEN 4 ELSE 2
ASet == \E key \in MKeys : \E r \in Pick(key) : Do([k |-> "set", key |-> key, raw |-> r])
AGood == \E key \in MKeys \cap Keys : \E r \in Pick(key) :
             Norm(KindOf(key), r, st.data) # <<>> /\ Do([k |-> "set", key |-> key, raw |-> r])
\* vectors and what is nearly one, in place of a vector
AVec == \E key \in VecKeys : \E r \in {x \in MRaws : x.t \in {"vector", "junk"}} : Do([k |-> "set", key |-> key, raw |-> r])
AMut == \E key \in VecKeys : Do([k |-> "mutate", key |-> key, i |-> 1, to |-> "77.0"])
AReset == \E key \in MKeys : Do([k |-> "reset", key |-> key])
AFull == Do([k |-> "fullreset"])
Filing == Emit \/ Mode = "ops"
ASave == Filing /\ \E p \in Files : /\ n < Depth /\ Did([k |-> "save", p |-> p], Apply(st, [k |-> "save", p |-> p]))
                          /\ saved' = [saved EXCEPT ![p] = <<st.cfg>>] /\ UNCHANGED entry
AAuthor == Mode = "ops" /\ \E p \in Files : \E c \in Contents :
             /\ n < Depth /\ Did([k |-> "author", p |-> p, content |-> c],
                                 Apply(st, [k |-> "author", p |-> p, content |-> c]))
             /\ saved' = [saved EXCEPT ![p] = <<>>] /\ UNCHANGED entry
ADelete == Mode = "ops" /\ \E p \in Files :
             /\ n < Depth /\ Did([k |-> "delete", p |-> p], Apply(st, [k |-> "delete", p |-> p]))
             /\ saved' = [saved EXCEPT ![p] = <<>>] /\ UNCHANGED entry
\* a rejected file: some of its valid values may have been taken over
ALoad == Filing /\ \E p \in Files : LET a == [k |-> "load", p |-> p] r == TLCEval(Apply(st, a)) IN
    /\ n < Depth
    /\ IF r[2] # "rejected-file" THEN Did(a, r)
       ELSE LET d == st.fs[p][2]
                ok == {key \in DOMAIN d : key \in Keys /\ Norm(KindOf(key), d[key], st.data) # <<>>}
            IN \E T \in (IF Emit THEN {ok} ELSE SUBSET ok) :
               Did(a, <<[st EXCEPT !.cfg = Loaded(st, [key \in T |-> d[key]])], "rejected-file">>)
    /\ Same
AData == Filing /\ \E p \in {"a", "b"} : \E k \in {"create", "remove"} : Do([k |-> k, p |-> p])
AEnter == /\ Len(st.stack) < Max
          /\ \E key \in MKeys : \E r \in Pick(key) :
             LET a == [k |-> "enter", key |-> key, raw |-> r] x == TLCEval(Apply(st, a)) IN
             /\ n < Depth /\ Did(a, x) /\ UNCHANGED saved
             /\ entry' = IF x[2] = "ok" THEN Append(entry, <<key, st.cfg[key]>>) ELSE entry
AIn == /\ Len(st.stack) < Max             \* contexts that are entered
       /\ \E key \in MKeys \cap Keys : \E r \in Pick(key) :
             LET a == [k |-> "enter", key |-> key, raw |-> r] x == TLCEval(Apply(st, a)) IN
             /\ n < Depth /\ x[2] = "ok" /\ Did(a, x) /\ UNCHANGED saved
             /\ entry' = Append(entry, <<key, st.cfg[key]>>)
AExit == /\ st.stack # <<>> /\ n < Depth
         /\ \E k \in {"exit", "return", "raise"} : Did([k |-> k], Apply(st, [k |-> k]))
         /\ entry' = SubSeq(entry, 1, Len(entry)-1) /\ UNCHANGED saved
AUnwind == /\ st.stack # <<>> /\ n < Depth
           /\ Did([k |-> "unwind"], Apply(st, [k |-> "unwind"])) /\ entry' = <<>> /\ UNCHANGED saved
\* for behaviours to replay: first the kind of the next action, so that all kinds
\* occur often
Weights == IF Mode = "ctx" THEN <<"in", "in", "in", "enter", "exit", "exit", "exit", "unwind", "good", "good", "vec",
                                  "mut", "mut", "reset", "full", "set", "load", "save", "data">>
           ELSE <<"good", "good", "good", "set", "set", "vec", "vec", "mut", "mut", "reset", "full", "save", "save", "load",
                  "load", "load", "author", "data", "delete", "in", "exit">>
Open(k) == CASE k \in {"in", "enter"} -> Len(st.stack) < Max
             [] k \in {"exit", "unwind"} -> st.stack # <<>>
             [] OTHER -> TRUE
Choose == /\ Emit /\ want = "" /\ n < Depth
          /\ \E j \in 1..Len(Weights) : Open(Weights[j]) /\ want' = Weights[j]
          /\ UNCHANGED <<st, hist, resp, entry, saved, n>>
Turn(k) == ~Emit \/ want = k
Next == \/ Choose
        \/ Turn("set") /\ ASet
        \/ Turn("good") /\ AGood
        \/ Emit /\ Turn("vec") /\ AVec
        \/ Turn("mut") /\ AMut
        \/ Turn("reset") /\ AReset
        \/ Turn("full") /\ AFull
        \/ Turn("save") /\ ASave
        \/ Turn("author") /\ AAuthor
        \/ Turn("delete") /\ ADelete
        \/ Turn("load") /\ ALoad
        \/ Turn("data") /\ AData
        \/ Turn("enter") /\ AEnter
        \/ Turn("in") /\ AIn
        \/ Turn("exit") /\ AExit
        \/ Turn("unwind") /\ AUnwind

Last == hist[Len(hist)]
TypeInv == DOMAIN st.cfg = Keys /\ \A key \in Keys : HasKind(KindOf(key), st.cfg[key])
\* a rejected operation changes nothing (a rejected file no key it does not hold)
FrameProp == [][/\ resp' = "error" => st' = st
                /\ resp' = "rejected-file" => Mixture(st, st.fs[hist'[Len(hist')].p][2], st'.cfg)]_vars
\* only the assigned key changes
OneKeyProp == [][(n' = n+1 /\ hist'[Len(hist')].k \in {"set", "mutate", "reset", "enter"}) =>
                 \A key \in Keys : key # hist'[Len(hist')].key => st'.cfg[key] = st.cfg[key]]_vars
ResetInv == (hist # <<>> /\ Last.k = "reset" /\ resp = "ok") => st.cfg[Last.key] = DefaultOf(Last.key)
FullInv == (hist # <<>> /\ Last.k = "fullreset") => st.cfg = Defaults
\* an untouched file gives back the configuration that was saved (as long as the
\* files it names exist)
LoadInv == (hist # <<>> /\ Last.k = "load" /\ saved[Last.p] # <<>>) =>
    IF \A key \in Keys : saved[Last.p][1][key][1] = "path" => saved[Last.p][1][key][2] \in st.data
    THEN resp = "ok" /\ st.cfg = saved[Last.p][1] ELSE resp = "rejected-file"
\* contexts: the innermost one first, every key as on entry
StackInv == /\ Len(st.stack) = Len(entry)
            /\ \A j \in 1..Len(entry) : st.stack[j] = [key |-> entry[j][1], val |-> entry[j][2]]
ExitProp == [][/\ Len(entry') = Len(entry) - 1 => st'.cfg = [st.cfg EXCEPT ![entry[Len(entry)][1]] =
                                                            entry[Len(entry)][2]]
               /\ (entry' = <<>> /\ entry # <<>>) =>
                    \A key \in Keys : LET js == {j \in 1..Len(entry) : entry[j][1] = key} IN
                      st'.cfg[key] = IF js = {} THEN st.cfg[key]
                                     ELSE entry[CHOOSE j \in js : \A l \in js : j <= l][2]]_vars
EmitInv == (Emit /\ n = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
