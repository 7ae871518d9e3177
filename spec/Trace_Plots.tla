----------------------------- MODULE Trace_Plots -----------------------------
(* Recorded plotting calls: the new figure, the values drawn in its panels at    *)
(* some places and the values of the synthesis methods there.                   *)
EXTENDS Plots, TraceBase

RECURSIVE MaxAbs(_, _, _)
MaxAbs(v, i, m) == IF i > Len(v) THEN m
                   ELSE MaxAbs(v, i+1, IF IsFin(v[i]) THEN FMax(m, FAbs(v[i])) ELSE m)
Agree(v, w, tol) == /\ Len(v) = Len(w)
                    /\ \A i \in 1..Len(v) : IF IsFin(w[i]) THEN Near(v[i], w[i], tol) ELSE v[i] = w[i]
Values(v, w) == Agree(v, w, FMul(MaxAbs(w, 1, F0), Eps(9)))
\* the sample of abscissae is evenly spaced from a to b (positions k of n)
Spaced(x, k, n, a, b) == \A i \in 1..Len(x) :
    Near(x[i], FAdd(a, FDivI(FMulI(FSub(b, a), k[i]), n-1)), Eps(8))
Fig(e, f) == LET c == e.call IN
    IF Len(f.panels) # Panels(c) THEN "panels"
    ELSE IF \E i \in 1..Panels(c) : f.panels[i].title # Titles(c)[i] THEN "title"
    ELSE IF \E i \in 1..Panels(c) : f.panels[i].label # Label(c) THEN "label"
    ELSE IF f.layout # Layout(c) THEN "layout"
    ELSE IF c.kind # "maps" /\ \E i \in 1..Panels(c) :        \* the lowest panels carry it for all
                 /\ f.panels[i].abscissa # Abscissa(c)
                 /\ i > Panels(c) - Layout(c)[2] \/ f.panels[i].abscissa # "" THEN "abscissa-label"
    ELSE IF ~(LET w == Opt(c.figsize, <<c.width, FDivI(FMulI(c.width, Tenths(c)), 10)>>)
              IN Near(f.size[1], w[1], Eps(6)) /\ Near(f.size[2], w[2], Eps(6))) THEN "figsize"
    ELSE "ok"
Line(e, p, q) == LET c == e.call IN      \* drawn panel and the values expected
    IF Len(p.lines) # Len(q.y) THEN "lines"
    ELSE IF \E j \in 1..Len(p.lines) : p.lines[j].n # q.n THEN "number-of-points"
    ELSE IF \E j \in 1..Len(p.lines) : ~Agree(p.lines[j].x, q.x, Eps(8)) THEN "abscissa"
    ELSE IF \E j \in 1..Len(p.lines) : ~Values(p.lines[j].y, q.y[j]) THEN "values"
    ELSE IF \E j \in 1..Len(p.lines) : Given(c.color) /\ p.lines[j].color # c.color[2] THEN "color"
    ELSE IF \E j \in 1..Len(p.lines) : Given(c.linewidth) /\ p.lines[j].width # c.linewidth[2] THEN "linewidth"
    ELSE IF c.kind = "spectrum" /\ p.scale # "log" THEN "scale"
    ELSE "ok"
Mesh(e, p, q, i) == LET c == e.call IN
    IF p.shape # q.shape THEN "shape"
    ELSE IF \E j \in 1..Len(q.lo) : ~(FLe(p.edge[j][1], FAdd(q.lo[j], Eps(9))) /\ FLe(FSub(q.lo[j], Eps(9)), p.edge[j][2]))
         THEN "position"
    ELSE IF ~Values(p.z, q.z) THEN "values"
    ELSE IF p.cmap # Cmap(c) THEN "cmap"
    ELSE IF p.projection # Opt(c.projection, "mollweide") THEN "projection"
    ELSE IF Given(c.vmax) /\ ~Near(p.clim[2], c.vmax[2], Eps(9)) THEN "vmax"
    ELSE IF Given(c.vmin) /\ ~Near(p.clim[1], c.vmin[2], Eps(9)) THEN "vmin"
    ELSE IF c.who = "static" /\ c.vmax = <<>> /\ p.clim[2] # F(200) THEN "vmax"
    ELSE IF c.who = "static" /\ c.vmin = <<>> /\ p.clim[1] # F(-200) THEN "vmin"
    ELSE IF c.who # "static" /\ i = 1 /\ c.vmax = <<>> /\ c.vmin = <<>> /\ q.limit # F0 /\
            ~(Near(p.clim[2], q.limit, FMul(Eps(9), q.limit)) /\ p.clim[1] = FNeg(p.clim[2])) THEN "limits"
    ELSE IF c.who # "static" /\ i = 1 /\ c.vmin = <<>> /\ q.limit # F0 /\
            ~Near(p.clim[1], FNeg(q.limit), FMul(Eps(9), q.limit)) THEN "lower-limit"
    ELSE IF c.who # "static" /\ i = 1 /\ c.vmax = <<>> /\ q.limit # F0 /\
            ~Near(p.clim[2], q.limit, FMul(Eps(9), q.limit)) THEN "upper-limit"
    ELSE "ok"
Panel(e, f, i) == IF e.call.kind = "maps" THEN Mesh(e, f.panels[i], e.expect[i], i)
                  ELSE Line(e, f.panels[i], e.expect[i])
\* where the model methods draw
Grid(e, f) == LET p == f.panels[1] IN
    IF e.call.who = "util" THEN "ok"
    ELSE CASE e.call.kind = "series" ->
                IF Spaced(p.lines[1].x, e.picks, p.lines[1].n, e.span[1], e.span[2]) /\ p.lines[1].n >= 100
                THEN "ok" ELSE "time-grid"
           [] e.call.kind = "maps" ->
                IF FLe(F(85), e.reach[1]) /\ FLe(e.reach[2], F(-85)) /\ FLe(F(355), e.reach[3])
                THEN "ok" ELSE "position-grid"
           [] OTHER -> "ok"
RECURSIVE First(_, _, _)
First(e, f, i) == IF i > Panels(e.call) THEN "ok"
                  ELSE LET v == Panel(e, f, i) IN IF v # "ok" THEN v ELSE First(e, f, i+1)
JudgePlot(e) ==
    IF e.op = "units" THEN (IF e.out.k = "ok" /\ e.out.v = Units(e.deriv) THEN "ok" ELSE "units")
    ELSE IF ~e.same THEN "arguments-modified"
    ELSE IF ~Accepted(e.call) \/ e.mustfail
         THEN (IF IsExc(e) /\ e.out.type = "ValueError" THEN "ok" ELSE "not-rejected")
    ELSE IF IsExc(e) THEN "exception"
    ELSE IF e.new # 1 THEN "number-of-figures"
    ELSE IF ~e.others THEN "other-figure"
    ELSE LET f == e.out.v IN
         IF Fig(e, f) # "ok" THEN Fig(e, f)
         ELSE IF Grid(e, f) # "ok" THEN Grid(e, f)
         ELSE First(e, f, 1)
=============================================================================
