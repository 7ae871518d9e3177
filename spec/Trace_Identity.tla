--------------------------- MODULE Trace_Identity ---------------------------
(* Recorded histories of models being built, saved and loaded, judged step by *)
(* step against Identity.                                                     *)
EXTENDS Identity, TraceBase

\* e.acts, e.out.steps (one observation per action), e.nt, e.ns, e.k, e.P
Colon == <<":">>
PartsOk(o, r) == /\ (r.tdep # <<>>) = Has(o, "tdep") /\ (r.static # <<>>) = Has(o, "static")
                 /\ \A p \in {"tdep", "static"} : Has(o, p) =>
                        r[p][1].name = PartName(o, p) /\ r[p][1].src = "internal"
Seen(o, r) ==
    IF r.cls # o.cls THEN "class"
    ELSE IF r.name # o.name THEN "name"
    ELSE IF o.cls = "BaseModel"
         THEN IF r.src # o.src THEN "source" ELSE IF r.meta # o.meta THEN "metadata" ELSE "ok"
         ELSE IF ~PartsOk(o, r) THEN "parts"
         ELSE IF SubSeq(r.str, 1, Len(o.name) + 1) # o.name \o Colon THEN "printed-name"
         ELSE "ok"
\* text in front of the table: the name first, then the facts
HeadV(e, o, a, r) ==
    IF r.head = <<>> \/ r.head[1] # <<"#", " ">> \o o.name THEN "header-name"
    ELSE IF a.leap # r.leap THEN "header-leap-year"
    ELSE IF a.k = "save" /\ r.numbers # HeadNumbers(o, a.part, e.nt, e.ns, e.k, e.P) THEN "header-numbers"
    ELSE "ok"

RECURSIVE Go(_, _, _)
Go(e, st, i) ==
    IF i > Len(e.acts) THEN "ok"
    ELSE LET a == e.acts[i]
             r == e.out.steps[i]
             q == TLCEval(Apply(st, a))
             v == IF q[2] = "error" THEN (IF r.err = "ValueError" THEN "ok" ELSE "missing-part-accepted")
                  ELSE IF r.err # "" THEN "valid-step-rejected"
                  ELSE LET w == IF a.k \in {"to_shc", "save"} THEN HeadV(e, st.obj, a, r) ELSE "ok" IN
                       IF w # "ok" THEN w ELSE Seen(q[1].obj, r.obj)
         IN IF v # "ok" THEN v ELSE Go(e, q[1], i+1)

JudgeI(e) == IF IsExc(e) THEN "history-rejected"
             ELSE Go(e, Begin({e.acts[i].p : i \in {j \in 1..Len(e.acts) : "p" \in DOMAIN e.acts[j]}}), 1)
=============================================================================
