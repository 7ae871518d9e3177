-------------------------------- MODULE Plots --------------------------------
(* What a plotting call draws: one new figure with a panel per component; its    *)
(* texts and options follow from the call, its values are those of the          *)
(* synthesis methods.  An option is <<>> (not given), <<"none">> (None given)     *)
(* or <<"v", value>>.                                                            *)
EXTENDS Integers, Sequences, TLC

Given(o) == o # <<>> /\ o[1] = "v"
\* keywords of the user override the defaults, None stands for the default
Opt(o, default) == IF Given(o) THEN o[2] ELSE default
\* the keyword is unknown to the function, whatever is given is passed on
Units(d) == CASE d = 0 -> "nT"
              [] d = 1 -> "$\\mathrm{nT}/\\mathrm{yr}$"
              [] OTHER -> "$\\mathrm{nT}/\\mathrm{yr}^{" \o ToString(d) \o "}$"
Deriv(c) == Opt(c.deriv, 0)
Degree(c) == LET n == Opt(c.nmax, c.model) IN IF n < c.model THEN n ELSE c.model
MapTitle(c, b) == "$" \o b \o "$ ($n\\leq" \o ToString(Degree(c)) \o "$, deriv=" \o ToString(Deriv(c)) \o ")"
Components == <<"B_r", "B_\\theta", "B_\\phi">>
Blank(n) == [i \in 1..n |-> ""]
Upper(r) == CASE r = "gsm" -> "GSM" [] r = "sm" -> "SM"
ExtTitle(c, b) == "$" \o b \o "$ (" \o
    (IF c.reference = "all" THEN "" ELSE Upper(c.reference) \o " ") \o c.source \o " sources)"
\* number of panels
Panels(c) == CASE c.kind = "spectrum" -> 1
               [] c.who = "util" -> c.n
               [] OTHER -> 3
Titles(c) == CASE c.who = "util" -> Opt(c.titles, Blank(Panels(c)))
               [] c.who = "external" -> [i \in 1..3 |-> ExtTitle(c, Components[i])]
               [] c.kind = "series" -> Opt(c.titles, [i \in 1..3 |-> "$" \o Components[i] \o "$"])
               [] c.kind = "maps" -> Opt(c.titles, [i \in 1..3 |-> MapTitle(c, Components[i])])
               [] c.kind = "spectrum" -> Opt(c.titles, <<"spatial power spectrum">>)
\* the label with the units: of the ordinate or of the colour bar
Label(c) == CASE c.who = "util" -> Opt(c.label, "")
              [] c.kind = "spectrum" -> Opt(c.label, "(" \o Units(Deriv(c)) \o ")$^2$")
              [] c.who = "external" -> Units(0)
              [] OTHER -> Opt(c.label, Units(Deriv(c)))
Abscissa(c) == IF c.kind = "series" THEN "time" ELSE "degree"
Layout(c) == Opt(c.layout, <<Panels(c), 1>>)
\* one panel per place of the layout
Accepted(c) == LET l == Layout(c) IN l[1] * l[2] = Panels(c)
Cmap(c) == Opt(c.cmap, IF c.who = "static" THEN "nio" ELSE "PuOr_r")
\* height of the figure in tenths of its width
Tenths(c) == CASE c.kind = "series" -> 8 * Panels(c)
               [] c.kind = "maps" -> 4 * Panels(c)
               [] c.kind = "spectrum" -> 8
\* the session: figures in the order they were drawn, none is ever changed
Figure(c) == [n |-> Panels(c), titles |-> Titles(c), label |-> Label(c), layout |-> Layout(c)]
Draw(figs, c) == IF Accepted(c) THEN Append(figs, Figure(c)) ELSE figs
=============================================================================
