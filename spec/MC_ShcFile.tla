---------------------------- MODULE MC_ShcFile ----------------------------
(* A writer emits the lines of a file one by one, comment lines may be put in *)
(* anywhere; a reader sees a well-formed file exactly when the last line has  *)
(* been written, and then finds the window of coefficients that was written.  *)
EXTENDS ShcFile, FiniteSets, IOUtils
Big == IOEnv.SHC_BIG = "1"
VARIABLES par, done, file
vars == <<par, done, file>>
Br == << F(-300), F(-10), FQ(401, 4), F(700) >>
NM == IF Big THEN 3 ELSE 2
Comments == {"#", "%"}
Co(k, i) == FQ(7*k - 3*i, 11)
Params == [nmin : 1..NM, nmax : 1..NM, order : 1..4, leap : BOOLEAN, cs : SUBSET Comments, p : 1..(IF Big THEN 3 ELSE 2)]
Breaks(p) == SubSeq(Br, 1, p.p + 1)
Times(p) == ShcSamples(Breaks(p), p.order)
CoOf(p) == [k \in 1..Len(Times(p)) |-> [i \in 1..(p.nmax*(p.nmax+2)) |-> Co(k, i)]]
Lines(p) == ShcWrite(Times(p), CoOf(p), p.order, p.nmin, p.nmax, p.leap)
Target == Lines(par)
Init == /\ par \in {p \in Params : p.nmin <= p.nmax}
        /\ done = 0 /\ file = <<>>
Emit == /\ done < Len(Target)
        /\ done' = done + 1
        /\ file' = Append(file, [c |-> "", tok |-> Target[done+1]])
\* at most two comment lines
NComments == Len(file) - done
Comment(c) == /\ NComments < 1 /\ done \in {0, 1, 3, Len(Target)}
              /\ file' = Append(file, [c |-> c, tok |-> <<F(9), F(9)>>]) /\ done' = done
Next == UNCHANGED par /\ (Emit \/ \E c \in par.cs : Comment(c))
L == DataLines(file, par.cs)
\* truncated files are recognised
CrashInv == WellFormed(TLCEval(L)) <=> done = Len(Target)
\* complete ones give back what was written
ReadInv == done = Len(Target) =>
    LET x == TLCEval(L) IN
    /\ <<Par(x, 1), Par(x, 2), Par(x, 3), Par(x, 4), Par(x, 5)>>
         = <<par.nmin, par.nmax, Len(Times(par)), par.order, par.order - 1>>
    /\ \A k \in 1..Len(Times(par)) :
          /\ Near(DyearToMjd(ShcTimes(x)[k], par.leap), Times(par)[k], Eps(18))
          /\ \A i \in 1..ShcRows(x) : ShcRow(x, i).v[k] = Co(k, par.nmin*par.nmin - 1 + i)
\* breaks are every step-th sample, and stay so with additional sites
BreakInv == par.order > 1 =>
    LET t == Times(par) s == par.order - 1 IN
    /\ ShcBreaks(t, par.order, s) = Breaks(par)
    /\ s > 1 => ShcBreaks(t \o <<F(10000)>>, par.order, s) = Breaks(par)
    /\ Len(t) = par.p * s + 1
\* the samples determine the spline (Schoenberg-Whitney): an increasing choice of
\* samples, one inside the support of every B-spline
RECURSIVE Whitney(_, _, _, _, _)
Whitney(kn, o, t, i, j) ==
    IF i > NBasis(kn, o) THEN TRUE
    ELSE IF j > Len(t) THEN FALSE
    ELSE IF FLt(F0, Basis(kn, i, o, t[j], Span(kn, t[j]))) THEN Whitney(kn, o, t, i+1, j+1)
    ELSE Whitney(kn, o, t, i, j+1)
UniqueInv == (par.order > 1 /\ done = 0) =>
    LET kn == TLCEval(Augment(Breaks(par), par.order)) IN Whitney(kn, par.order, Times(par), 1, 1)
\* labels are a bijection on the coefficients
LabelInv == done = 0 =>
    LET w == TLCEval(RowOrder(par.nmin, par.nmax)) IN
    /\ Cardinality({w[i] : i \in 1..Len(w)}) = Len(w)
    /\ \A n \in par.nmin..par.nmax : \A m \in -n..n : \E i \in 1..Len(w) : w[i] = <<n, m>>
    /\ \A i \in 1..Len(w) : w[i] = RowLabel(Window(1, par.nmax, par.nmax)[par.nmin*par.nmin - 1 + i])
\* order two: the interpolation passes through the snapshots
LinInv == (done = 0 /\ par.order = 2) =>
    \A k \in 1..Len(Times(par)) :
       Near(LinVal(Times(par), [q \in 1..Len(Times(par)) |-> Co(q, 1)], Times(par)[k]), Co(k, 1), Eps(18))
=============================================================================
