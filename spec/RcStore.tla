------------------------------ MODULE RcStore ------------------------------
(***************************************************************************)
(* Files with the RC-index, their conversion and the configured file.       *)
(* State s = [fs |-> [path -> content], conf |-> path]; a content is        *)
(*   <<"none">>, <<"text", id>>, <<"h5", id>> (table id in that format) or  *)
(*   <<"junk">> (a text that is not a table).                               *)
(* Apply(s, a) = <<state afterwards, response>>; responses are              *)
(*   <<"ok">>, <<"error">>, <<"warning">> or <<"table", id>>.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Put(s, p, c) == [s EXCEPT !.fs[p] = c]
HasTable(c) == c[1] \in {"text", "h5"}
Apply(s, a) ==
    CASE a.k = "write" -> <<Put(s, a.p, <<a.fmt, a.id>>), <<"ok">>>>
      [] a.k = "junk"  -> <<Put(s, a.p, <<"junk">>), <<"ok">>>>
      [] a.k = "remove" -> <<Put(s, a.p, <<"none">>), <<"ok">>>>
      \* save_RC_h5file: only text tables can be converted; otherwise a warning
      \* and the output is left alone; the folder of path q does not exist
      [] a.k = "convert" -> IF s.fs[a.p][1] = "text" /\ a.q # "q"
                            THEN <<Put(s, a.q, <<"h5", s.fs[a.p][2]>>), <<"ok">>>>
                            ELSE <<s, <<"warning">>>>
      \* load_RC_datfile
      [] a.k = "load" -> IF s.fs[a.p][1] = "text" THEN <<s, <<"table", s.fs[a.p][2]>>>>
                         ELSE <<s, <<"error">>>>
      \* the configured file; must exist
      [] a.k = "configure" -> IF s.fs[a.p][1] = "none" THEN <<s, <<"error">>>>
                              ELSE <<[s EXCEPT !.conf = a.p], <<"ok">>>>
      \* coefficients in SM use the file configured now, in either format
      [] a.k = "query" -> IF HasTable(s.fs[s.conf]) THEN <<s, <<"table", s.fs[s.conf][2]>>>>
                          ELSE <<s, <<"error">>>>
Empty(paths, conf) == [fs |-> [p \in paths |-> <<"none">>], conf |-> conf]
RECURSIVE Run(_, _)
Run(s, acts) == IF acts = <<>> THEN s ELSE Run(Apply(s, Head(acts))[1], Tail(acts))
=============================================================================
