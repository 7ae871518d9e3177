----------------------------- MODULE Trace_Config -----------------------------
(* Recorded histories of the configuration: after every operation its response *)
(* and all values.                                                             *)
EXTENDS Config, TraceBase

Bad(what, a) == what \o "-" \o a.k
RECURSIVE Replay(_, _, _)
Replay(e, s, j) ==
    IF j > Len(e.acts) THEN "ok"
    ELSE LET a == e.acts[j]
             got == e.out.steps[j]
             r == TLCEval(Apply(s, a))
         IN IF r[2] = "ok" /\ got.res # "ok" THEN Bad("rejected", a)
            ELSE IF r[2] # "ok" /\ got.res # "error" THEN Bad("accepted", a)
            ELSE IF DOMAIN got.cfg # Keys THEN Bad("keys", a)
            ELSE IF r[2] = "rejected-file"
                 THEN IF Mixture(s, s.fs[a.p][2], got.cfg)
                      THEN Replay(e, [s EXCEPT !.cfg = got.cfg], j+1) ELSE Bad("values", a)
            ELSE IF got.cfg # r[1].cfg THEN Bad("values", a)
            ELSE IF a.k = "save" /\ got.file # s.cfg THEN Bad("file", a)
            ELSE Replay(e, r[1], j+1)
JudgeConfig(e) ==
    IF IsExc(e) THEN "replay-failed"
    ELSE IF e.out.start # Defaults THEN "defaults"
    ELSE Replay(e, Start({e.data[i] : i \in 1..Len(e.data)}, {"c", "d"}), 1)
=============================================================================
