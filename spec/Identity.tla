------------------------------ MODULE Identity ------------------------------
(* Who a model is: name, source, metadata and parts, as it is built, saved   *)
(* and loaded again.  Texts are sequences of one-character strings.           *)
(*                                                                            *)
(* State: the model the user holds (`obj`) and the files on disk.             *)
EXTENDS Integers, Sequences

\* ---- names of files -------------------------------------------------------
RECURSIVE LastOf(_, _, _)
LastOf(s, ch, i) == IF i = 0 THEN 0 ELSE IF s[i] = ch THEN i ELSE LastOf(s, ch, i-1)
BaseOf(p) == SubSeq(p, LastOf(p, "/", Len(p)) + 1, Len(p))
RECURSIVE LeadDots(_, _)
LeadDots(s, i) == IF i > Len(s) \/ s[i] # "." THEN i-1 ELSE LeadDots(s, i+1)
\* a file name without its extension; dots in front belong to the name
StemOf(s) == LET k == LastOf(s, ".", Len(s)) IN
             IF k <= LeadDots(s, 1) THEN s ELSE SubSeq(s, 1, k-1)
NameOfFile(p) == StemOf(BaseOf(p))

\* ---- models ----------------------------------------------------------------
Suffix == [tdep |-> <<"_", "t", "d", "e", "p">>, static |-> <<"_", "s", "t", "a", "t", "i", "c">>]
Nobody == [cls |-> "none"]
\* still: a single constant in time
Plain(name, src, meta, still) == [cls |-> "BaseModel", name |-> name, src |-> src, meta |-> meta, parts |-> <<>>,
                                  full |-> FALSE, still |-> still]
Whole(name, parts, full) == [cls |-> "CHAOS", name |-> name, src |-> "", meta |-> 0, parts |-> parts,
                             full |-> full, still |-> parts = <<"static">>]
Source(s) == IF s = "" THEN "internal" ELSE s
Has(o, part) == \E i \in 1..Len(o.parts) : o.parts[i] = part
\* what the parts of a model are called
PartName(o, part) == o.name \o Suffix[part]
DefaultCHAOS == <<"C", "H", "A", "O", "S">>

\* ---- files -----------------------------------------------------------------
NoFile == [kind |-> "none"]
Begin(paths) == [obj |-> Nobody, fs |-> [p \in paths |-> NoFile]]
\* degrees nt, ns of the parts, order k and P pieces: numbers that the text in
\* front of the table tells
HeadNumbers(o, part, nt, ns, k, P) ==
    IF part = "tdep" THEN <<1, nt, IF k = 1 THEN P ELSE P*(k-1) + 1, k, IF k > 2 THEN k-1 ELSE 1>>
    ELSE <<IF Has(o, "tdep") THEN nt + 1 ELSE 1, ns>>

Enabled(st, a) ==
    CASE a.k = "make" -> TRUE
      [] a.k = "spline" -> TRUE
      [] a.k = "to_shc" -> st.obj.cls = "BaseModel"
      [] a.k = "save" -> st.obj.cls = "CHAOS"
      [] a.k = "mat" -> st.obj.cls = "CHAOS" /\ st.obj.full
      [] a.k = "load" -> st.fs[a.p].kind = IF a.by \in {"load_CHAOS_matfile", "CHAOS.from_mat"} THEN "mat" ELSE "shc"

\* <<state, answer>>: answer is "ok" or "error"
Apply(st, a) ==
    CASE a.k = "make" ->
           <<[st EXCEPT !.obj = IF a.cls = "BaseModel" THEN Plain(a.name[1], Source(a.src), a.meta, FALSE)
                                ELSE Whole(IF a.name = <<>> THEN DefaultCHAOS ELSE a.name[1], a.parts, a.full)], "ok">>
      [] a.k = "spline" -> <<[st EXCEPT !.obj = Plain(a.name[1], Source(a.src), a.meta, FALSE)], "ok">>
      [] a.k = "to_shc" -> <<[st EXCEPT !.fs[a.p] = [kind |-> "shc", part |-> IF st.obj.still THEN "static" ELSE "tdep"]], "ok">>
      [] a.k = "save" -> IF Has(st.obj, a.part)
                         THEN <<[st EXCEPT !.fs[a.p] = [kind |-> "shc", part |-> a.part]], "ok">>
                         ELSE <<st, "error">>
      [] a.k = "mat" -> <<[st EXCEPT !.fs[a.p] = [kind |-> "mat", part |-> "all"]], "ok">>
      [] a.k = "load" ->
           LET name == IF a.name = <<>> THEN NameOfFile(a.path) ELSE a.name[1] IN
           <<[st EXCEPT !.obj =
                IF a.by = "BaseModel.from_shc" THEN Plain(name, Source(a.src), a.meta, st.fs[a.p].part = "static")
                ELSE IF st.fs[a.p].kind = "mat" THEN Whole(name, <<"tdep", "static">>, TRUE)
                ELSE Whole(name, <<st.fs[a.p].part>>, FALSE)], "ok">>
=============================================================================
