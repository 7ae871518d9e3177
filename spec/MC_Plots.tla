------------------------------ MODULE MC_Plots ------------------------------
EXTENDS Plots, FiniteSets
VARIABLES figs, last, n
Some(S) == {<<>>, <<"none">>} \cup {<<"v", x>> : x \in S}
Calls == [kind : {"series", "maps", "spectrum"}, who : {"util", "model", "static", "external"}, n : {1, 2, 3},
          model : {2}, deriv : Some({0, 1, 2}), nmax : Some({1, 2, 3}),
          titles : {<<>>, <<"v", <<"a", "b", "c">>>>}, label : {<<>>, <<"v", "x">>},
          layout : {<<>>, <<"v", <<1, 3>>>>, <<"v", <<1, 1>>>>}, cmap : {<<>>},
          reference : {"all", "gsm"}, source : {"all"}]
Legal(c) == /\ c.who = "external" => c.kind = "maps" /\ c.titles = <<>> /\ c.label = <<>> /\ c.layout = <<>>
            /\ c.who = "static" => c.kind = "maps"
            /\ c.who # "external" => c.reference = "all"
            /\ c.kind = "spectrum" => c.titles = <<>> /\ c.layout = <<>>
            /\ c.who = "util" => c.n = 3 \/ c.titles = <<>>
            /\ c.who # "util" => c.n = 3
LegalCalls == {c \in Calls : Legal(c)}
Init == figs = <<>> /\ last = <<>> /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ \E c \in LegalCalls : last' = <<c>> /\ figs' = TLCEval(Draw(figs, c))
C == last[1]
F == figs[Len(figs)]
Drawn == last # <<>> /\ Accepted(C)
\* every panel has its title, what the user asks for is what is shown
PanelInv == Drawn => Len(F.titles) = F.n /\ F.layout[1] * F.layout[2] = F.n
UserInv == Drawn => /\ Given(C.titles) => F.titles = C.titles[2]
                    /\ Given(C.label) => F.label = C.label[2]
                    /\ Given(C.layout) => F.layout = C.layout[2]
\* None is the same as not giving the keyword
NoneInv == (last # <<>> /\ C.deriv = <<"none">>) => Figure(C) = Figure([C EXCEPT !.deriv = <<>>])
NmaxInv == (last # <<>> /\ C.nmax = <<"none">>) => Figure(C) = Figure([C EXCEPT !.nmax = <<>>])
\* different derivatives are told apart
UnitsInv == Cardinality({Units(d) : d \in 0..4}) = 5
GrowProp == [][Len(figs') \in {Len(figs), Len(figs)+1} /\ SubSeq(figs', 1, Len(figs)) = figs]_<<figs, last, n>>
=============================================================================
