------------------------------- MODULE System -------------------------------
(* The whole package in the hands of one user: arrays, models, files and       *)
(* configuration values that the user owns, and queries that read them.        *)
(* Everything the user can see lives in a heap of cells; a name (slot) refers   *)
(* to one cell.  A query reads the cells it names and delivers a result in a    *)
(* new cell; no other cell changes.  `Alias` puts the result of a query into    *)
(* the first cell it reads (what must not happen) to show that the properties   *)
(* notice it.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alias, Uses

\* Uses: what every query reads, the catalogue is SystemQueries.tla
Slots == UNION {Uses[q] : q \in DOMAIN Uses} \ {"model", "base"}
Objects == {"model", "base"}                   \* models, exist in two contents
CfgKeys == {"params.r_surf", "params.dipole", "params.ellipsoid"}
Names == Slots \cup Objects
Paths == {"p", "q"}

\* a cell holds <<kind, version or value>>
Start == [heap |-> [i \in 1..Cardinality(Names) |-> <<"new", 0>>],
          at |-> [x \in Names |-> 0], cfg |-> [key \in CfgKeys |-> 0], stack |-> <<>>,
          held |-> <<>>, file |-> [p \in Paths |-> -1]]
\* names in an order: every name gets its own cell with version 0
RECURSIVE Place(_, _, _)
Place(s, rest, i) == IF rest = {} THEN s
    ELSE LET x == CHOOSE y \in rest : TRUE
         IN Place([s EXCEPT !.heap[i] = <<x, 0>>, !.at[x] = i], rest \ {x}, i+1)
Begin == Place(Start, Names, 1)

See(s, x) == s.heap[s.at[x]]
\* what a query depends on, by name
Reads(s, q) == [x \in Uses[q] \cup CfgKeys |-> IF x \in CfgKeys THEN <<x, s.cfg[x]>> ELSE See(s, x)]
Value(s, q) == <<"value", q, Reads(s, q)>>

Fresh(s) == Len(s.heap) + 1
Query(s, q) ==
    LET v == Value(s, q)
        own == Uses[q] \cap Slots
        c == IF Alias /\ own # {} THEN s.at[CHOOSE x \in own : TRUE] ELSE Fresh(s)
        h == IF c = Fresh(s) THEN Append(s.heap, v) ELSE s.heap
    IN [s EXCEPT !.heap = h, !.held = Append(s.held, [cell |-> c, val |-> v, intact |-> TRUE])]
\* the user writes over everything a result consists of
Scribble(s, i) == [s EXCEPT !.heap[s.held[i].cell] = <<"scribble", 0>>, !.held[i].intact = FALSE]
\* the user changes the contents of an own array in place, or takes a new array
Write(s, x, v) == [s EXCEPT !.heap[s.at[x]] = <<x, v>>]
Renew(s, x, v) == [s EXCEPT !.heap = Append(s.heap, <<x, v>>), !.at[x] = Fresh(s)]
Save(s, p) == [s EXCEPT !.file[p] = See(s, "model")[2]]
Load(s, p) == Renew(s, "model", s.file[p])
Enter(s, key) == [s EXCEPT !.stack = Append(s.stack, <<key, s.cfg[key]>>), !.cfg[key] = 1 - s.cfg[key]]
Exit(s) == LET t == s.stack[Len(s.stack)] IN
           [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack)-1), !.cfg[t[1]] = t[2]]
Drop(s) == [s EXCEPT !.held = <<>>]

Enabled(s, a) == CASE a.k = "scribble" -> a.i <= Len(s.held)
                   [] a.k = "load" -> s.file[a.p] # -1
                   [] a.k = "exit" -> s.stack # <<>>
                   [] a.k = "enter" -> Len(s.stack) < 2
                   [] OTHER -> TRUE
Apply(s, a) == CASE a.k = "query" -> Query(s, a.q)
                 [] a.k = "scribble" -> Scribble(s, a.i)
                 [] a.k = "write" -> Write(s, a.x, a.v)
                 [] a.k = "renew" -> Renew(s, a.x, a.v)
                 [] a.k = "save" -> Save(s, a.p)
                 [] a.k = "load" -> Load(s, a.p)
                 [] a.k = "enter" -> Enter(s, a.key)
                 [] a.k = "exit" -> Exit(s)
                 [] a.k = "drop" -> Drop(s)
=============================================================================
