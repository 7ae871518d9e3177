---------------------------- MODULE MC_Identity ----------------------------
(* Histories of building, saving and loading models.  `truth` follows the     *)
(* name independently of the rules for file names: the stems are written out. *)
EXTENDS Identity, TLC, Json, IOUtils
Depth == atoi(IOEnv.ID_DEPTH)
Emit == IOEnv.ID_EMIT = "1"
VARIABLES st, hist, truth, n, want, flav
vars == <<st, hist, truth, n, want, flav>>
Files == [a |-> <<"d", "/", "m", ".", "s", "h", "c">>, b |-> <<"d", ".", "x", "/", "v", "1", ".", "2", ".", "s", "h", "c">>,
          c |-> <<"d", "/", "t", "w", "o", " ", "w">>, e |-> <<"d", "/", ".", "h", "i", "d">>,
          f |-> <<"d", "/", "C", "-", "7", ".", "m", "a", "t">>, g |-> <<"d", ".", "x", "/", "a", ".", "b", ".", "m", "a", "t">>]
Stems == [a |-> <<"m">>, b |-> <<"v", "1", ".", "2">>, c |-> <<"t", "w", "o", " ", "w">>, e |-> <<".", "h", "i", "d">>,
          f |-> <<"C", "-", "7">>, g |-> <<"a", ".", "b">>]
Shc == {"a", "b", "c", "e"}
Mat == {"f", "g"}
Given == {<<>>, <<"Q">>, <<"A", " ", "7">>, <<"x", ".", "y", "_", "t">>}
Opt == {<<>>} \cup {<<g>> : g \in Given}
Srcs == {"", "internal", "external"}
\* behaviours of one flavour stay among the actions that meet there
MatKinds == {"full", "mat", "loadM", "save", "loadC"}
Kinds == {"make", "chaos", "spline", "to_shc", "save", "mat", "loadB", "loadC", "loadM"}
Acts(k) ==
    CASE k = "make" -> [k : {"make"}, cls : {"BaseModel"}, name : {<<g>> : g \in Given}, src : Srcs, meta : 0..3]
      [] k = "spline" -> [k : {"spline"}, name : {<<g>> : g \in Given}, src : Srcs, meta : 0..3]
      [] k = "chaos" -> [k : {"make"}, cls : {"CHAOS"}, name : Opt, parts : {<<"tdep">>, <<"static">>, <<"tdep", "static">>}, full : {FALSE}]
                        \cup [k : {"make"}, cls : {"CHAOS"}, name : Opt, parts : {<<"tdep", "static">>}, full : {TRUE}]
      [] k = "full" -> [k : {"make"}, cls : {"CHAOS"}, name : Opt, parts : {<<"tdep", "static">>}, full : {TRUE}]
      [] k = "to_shc" -> [k : {"to_shc"}, p : Shc, leap : BOOLEAN]
      [] k = "save" -> [k : {"save"}, p : Shc, part : {"tdep", "static"}, leap : BOOLEAN]
      [] k = "mat" -> [k : {"mat"}, p : Mat]
      [] k = "loadB" -> [k : {"load"}, by : {"BaseModel.from_shc"}, p : Shc, name : Opt, src : Srcs, meta : 0..3]
      [] k = "loadC" -> [k : {"load"}, by : {"load_CHAOS_shcfile"}, p : Shc, name : Opt]
                        \cup [k : {"load"}, by : {"CHAOS.from_shc"}, p : Shc, name : {<<g>> : g \in Given}]
      [] k = "loadM" -> [k : {"load"}, by : {"load_CHAOS_matfile", "CHAOS.from_mat"}, p : Mat, name : Opt]
Full(a) == IF a.k = "load" THEN a @@ [path |-> Files[a.p]] ELSE a
Init == st = Begin(Shc \cup Mat) /\ hist = <<>> /\ truth = <<>> /\ n = 0 /\ want = ""
        /\ flav \in IF Emit THEN {"any", "mat"} ELSE {"any"}
Do(k) == \E b \in Acts(k) : LET a == Full(b) IN
    /\ Enabled(st, a)
    /\ LET r == TLCEval(Apply(st, a)) IN st' = r[1]
    /\ n' = n + 1 /\ want' = ""
    /\ hist' = IF Emit THEN Append(hist, a) ELSE <<a>>
    /\ truth' = IF a.k \in {"to_shc", "save", "mat"} THEN truth
                ELSE IF a.name # <<>> THEN a.name[1]
                ELSE IF a.k = "load" THEN Stems[a.p] ELSE DefaultCHAOS
Some(k) == \E b \in Acts(k) : Enabled(st, Full(b))
Flavour == IF flav = "mat" THEN MatKinds ELSE Kinds
Choose == want = "" /\ n < Depth /\ (\E k \in Flavour : Some(k) /\ want' = k) /\ UNCHANGED <<st, hist, truth, n>>
Move == IF Emit THEN Choose \/ (want # "" /\ Do(want)) ELSE n < Depth /\ \E k \in Kinds : Do(k)
Next == Move /\ flav' = flav
NameInv == st.obj # Nobody => st.obj.name = truth
\* only full models lie in MAT-files; nothing is saved of a part that does not exist
FileInv == \A p \in Shc \cup Mat : (st.fs[p].kind = "mat" => p \in Mat) /\ (st.fs[p].kind = "shc" => p \in Shc)
StemInv == \A s \in {Stems[p] : p \in DOMAIN Stems} : StemOf(s \o <<".", "z">>) = s /\ BaseOf(s) = s
EmitInv == (Emit /\ n = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
