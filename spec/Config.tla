------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration dictionary: validated assignment, defaults, files and  *)
(* nested contexts.  A value is a tuple of strings: <<"float", x>>,         *)
(* <<"int", x>>, <<"vec", x1, ..., xn>>, <<"str", s>>, <<"path", p>> or     *)
(* <<"none">>.                                                              *)
(* What is offered to the configuration is a raw value                      *)
(*   [t |-> type, f |-> as float or "", i |-> as integer or "", s |-> text, *)
(*    x |-> entries of a vector, ver |-> text with a version number]         *)
(* State s = [cfg |-> [key -> value], fs |-> [file -> content],             *)
(*            data |-> existing data files, stack |-> <<[key, val]>>]       *)
(* a content is <<>> (no file), <<"junk">>, or <<"json", [key -> raw]>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ---- documented keys, types and defaults --------------------------------------
Lib(f) == <<"path", "lib/" \o f>>
Table == <<
    <<"params.r_surf", "float", <<"float", "6371.2">>>>,
    <<"params.r_cmb", "float", <<"float", "3485.0">>>>,
    <<"params.dipole", "vec3", <<"vec", "-29442.0", "-1501.0", "4797.1">>>>,
    <<"params.ellipsoid", "vec2", <<"vec", "6378.137", "6356.752">>>>,
    <<"params.CHAOS_version", "version", <<"str", "7.18">>>>,
    <<"params.cdf_to_mjd", "int", <<"int", "730485">>>>,
    <<"file.RC_index", "path", Lib("RC_index.h5")>>,
    <<"file.GSM_spectrum", "path", Lib("frequency_spectrum_gsm.npz")>>,
    <<"file.SM_spectrum", "path", Lib("frequency_spectrum_sm.npz")>>,
    <<"file.Earth_conductivity", "path", Lib("Earth_conductivity.dat")>>,
    <<"file.shp_coastline", "path", Lib("ne_110m_coastline.zip")>>,
    <<"plots.figure_width", "float", <<"float", "6.3">>>> >>
Keys == {Table[j][1] : j \in 1..Len(Table)}
RowOf(key) == Table[CHOOSE j \in 1..Len(Table) : Table[j][1] = key]
KindOf(key) == RowOf(key)[2]
DefaultOf(key) == RowOf(key)[3]
Defaults == [key \in Keys |-> DefaultOf(key)]

\* ---- raw values -----------------------------------------------------------------
Raw0 == [t |-> "none", f |-> "", i |-> "", s |-> "", x |-> <<>>, ver |-> FALSE]
Num(f, i) == [Raw0 EXCEPT !.t = "number", !.f = f, !.i = i]
Txt(s, f, i, v) == [Raw0 EXCEPT !.t = "text", !.s = s, !.f = f, !.i = i, !.ver = v]
Vec(x) == [Raw0 EXCEPT !.t = "vector", !.x = x]
Pth(p) == [Raw0 EXCEPT !.t = "path", !.s = p]
Junk == [Raw0 EXCEPT !.t = "junk"]               \* matrix, words, other objects
RawOf(v) == CASE v[1] = "float" -> Num(v[2], "")
              [] v[1] = "int" -> Num("", v[2])
              [] v[1] = "vec" -> Vec(Tail(v))
              [] v[1] = "str" -> Txt(v[2], "", "", TRUE)
              [] v[1] = "path" -> Pth(v[2])
              [] OTHER -> Raw0
NoneText == Txt("None", "", "", FALSE)

\* ---- validation: <<value>> or <<>> ------------------------------------------------
Norm(kind, r, data) ==
    CASE kind = "float" -> IF r.f # "" THEN <<<<"float", r.f>>>> ELSE <<>>
      [] kind = "int" -> IF r.i # "" THEN <<<<"int", r.i>>>> ELSE <<>>
      [] kind = "vec3" -> IF r.t = "vector" /\ Len(r.x) = 3 THEN <<<<"vec">> \o r.x>> ELSE <<>>
      [] kind = "vec2" -> IF r.t = "vector" /\ Len(r.x) = 2 THEN <<<<"vec">> \o r.x>> ELSE <<>>
      [] kind = "version" -> IF r.ver THEN <<<<"str", r.s>>>> ELSE <<>>
      [] kind = "path" -> IF r.t = "none" \/ r.s = "None" THEN <<<<"none">>>>
                          ELSE IF r.t = "path" /\ r.s \in data THEN <<<<"path", r.s>>>>
                          ELSE <<>>
\* documented cases only: no rounding to integers, no version from other types
Specified(kind, r) == /\ kind = "int" => ~(r.t = "number" /\ r.i = "")
                      /\ kind = "version" => r.t = "text"
HasKind(kind, v) == CASE kind = "float" -> v[1] = "float"
                      [] kind = "int" -> v[1] = "int"
                      [] kind = "vec3" -> v[1] = "vec" /\ Len(v) = 4
                      [] kind = "vec2" -> v[1] = "vec" /\ Len(v) = 3
                      [] kind = "version" -> v[1] = "str"
                      [] kind = "path" -> v[1] \in {"path", "none"}

\* ---- transitions: <<state, response>> ----------------------------------------------
Assign(s, key, r) ==
    IF key \notin Keys THEN <<s, "error">>
    ELSE LET v == Norm(KindOf(key), r, s.data) IN
         IF v = <<>> THEN <<s, "error">> ELSE <<[s EXCEPT !.cfg[key] = v[1]], "ok">>
\* contents of a file that is valid throughout
AllValid(s, d) == \A key \in DOMAIN d : key \in Keys /\ Norm(KindOf(key), d[key], s.data) # <<>>
Loaded(s, d) == [key \in Keys |-> IF key \in DOMAIN d THEN Norm(KindOf(key), d[key], s.data)[1]
                                  ELSE s.cfg[key]]
\* after a rejected file every key has its old value or the valid one of the file
Mixture(s, d, cfg) ==
    \A key \in Keys : \/ cfg[key] = s.cfg[key]
                      \/ /\ key \in DOMAIN d
                         /\ <<cfg[key]>> = Norm(KindOf(key), d[key], s.data)
Top(s) == s.stack[Len(s.stack)]
Pop(s) == [s EXCEPT !.cfg[Top(s).key] = Top(s).val, !.stack = SubSeq(s.stack, 1, Len(s.stack)-1)]
RECURSIVE PopAll(_)
PopAll(s) == IF s.stack = <<>> THEN s ELSE PopAll(Pop(s))
Apply(s, a) ==
    CASE a.k = "set" -> Assign(s, a.key, a.raw)
      [] a.k = "mutate" -> <<[s EXCEPT !.cfg[a.key][a.i + 1] = a.to], "ok">>   \* in place
      [] a.k = "reset" -> IF a.key \in Keys THEN <<[s EXCEPT !.cfg[a.key] = DefaultOf(a.key)], "ok">>
                          ELSE <<s, "error">>
      [] a.k = "fullreset" -> <<[s EXCEPT !.cfg = Defaults], "ok">>
      [] a.k = "save" -> <<[s EXCEPT !.fs[a.p] = <<"json", [key \in Keys |-> RawOf(s.cfg[key])]>>], "ok">>
      [] a.k = "author" -> <<[s EXCEPT !.fs[a.p] = a.content], "ok">>
      [] a.k = "load" -> LET c == s.fs[a.p] IN
                         IF c = <<>> \/ c[1] = "junk" THEN <<s, "error">>
                         ELSE IF AllValid(s, c[2]) THEN <<[s EXCEPT !.cfg = Loaded(s, c[2])], "ok">>
                         ELSE <<s, "rejected-file">>
      [] a.k = "delete" -> <<[s EXCEPT !.fs[a.p] = <<>>], "ok">>
      [] a.k = "create" -> <<[s EXCEPT !.data = @ \cup {a.p}], "ok">>
      [] a.k = "remove" -> <<[s EXCEPT !.data = @ \ {a.p}], "ok">>
      [] a.k = "enter" -> LET r == Assign(s, a.key, a.raw) IN
                          IF r[2] = "error" THEN r
                          ELSE <<[r[1] EXCEPT !.stack = Append(@, [key |-> a.key, val |-> s.cfg[a.key]])], "ok">>
      \* leaving the innermost context: at its end, by return, by an exception
      [] a.k \in {"exit", "return", "raise"} -> <<Pop(s), "ok">>
      [] a.k = "unwind" -> <<PopAll(s), "ok">>       \* an exception that leaves all contexts
Start(data, files) == [cfg |-> Defaults, fs |-> [p \in files |-> <<>>], data |-> data, stack |-> <<>>]
=============================================================================
