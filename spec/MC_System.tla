----------------------------- MODULE MC_System -----------------------------
(* All short histories of a small package (SYS_EMIT=0), or histories over the   *)
(* real catalogue to be replayed into the code (SYS_EMIT=1).  `owner` and       *)
(* `first` follow independently what the user put where and what each query     *)
(* delivered first.                                                            *)
EXTENDS System, SystemQueries, Json, IOUtils
Depth == atoi(IOEnv.SYS_DEPTH)
Emit == IOEnv.SYS_EMIT = "1"
Shared == IOEnv.SYS_ALIAS = "1"
Small == [f |-> {"x"}, g |-> {"x", "y"}, m |-> {"model", "x"}]
MUses == IF Emit THEN Catalogue ELSE Small
MCfg == IF Emit THEN CfgKeys ELSE {"params.r_surf"}
\* "1": the queries of one behaviour belong together
Related == Emit /\ IOEnv.SYS_FAMILY = "1"
VARIABLES st, hist, owner, seen, same, n, want, focus, choice
vars == <<st, hist, owner, seen, same, n, want, focus, choice>>
Init == /\ st = Begin /\ hist = <<>> /\ owner = [x \in Names |-> 0]
        /\ seen = {} /\ same = TRUE /\ n = 0 /\ want = "" /\ focus = IF Emit THEN {} ELSE DOMAIN Small
        /\ choice \in IF Related THEN {Families[j] : j \in 1..Len(Families)} ELSE {DOMAIN MUses}
FocusSize == atoi(IOEnv.SYS_FOCUS)      \* queries in one behaviour
\* contents: models have two, arrays three
Vers(x) == IF x \in Objects \/ ~Emit THEN {0, 1} ELSE {0, 1, 2}
Pieces == UNION {Uses[q] : q \in focus}
Did(a) == /\ n < Depth /\ n' = n+1 /\ want' = "" /\ UNCHANGED <<focus, choice>>
          /\ Enabled(st, a) /\ st' = TLCEval(Apply(st, a))
          /\ hist' = IF Emit THEN Append(hist, a) ELSE <<a>>
Keep == UNCHANGED <<owner, seen, same>>
\* what a caller sees of a query: the contents of the cell it got
Got(s) == LET h == s.held[Len(s.held)] IN s.heap[h.cell]
Key(s, q) == <<q, [x \in Uses[q] |-> owner[x]], s.cfg>>
Ask(q) == /\ Did([k |-> "query", q |-> q]) /\ UNCHANGED owner
          /\ LET key == Key(st, q)
                 old == {p \in seen : p[1] = key}
             IN IF Emit THEN UNCHANGED <<seen, same>>
                ELSE /\ seen' = IF old = {} THEN seen \cup {<<key, Got(st')>>} ELSE seen
                     /\ same' = (same /\ \A p \in old : p[2] = Got(st'))
LastQ == LET js == {j \in 1..Len(hist) : hist[j].k = "query"}
         IN hist[CHOOSE j \in js : \A l \in js : l <= j].q
AQuery == \E q \in focus : Ask(q)
AAgain == Emit /\ (\E j \in 1..Len(hist) : hist[j].k = "query") /\ Ask(LastQ)
\* the user writes over the results held (all of them: the last one most)
AScribble == \E i \in (IF Emit /\ Len(st.held) > 0 THEN {Len(st.held), 1} ELSE 1..Len(st.held)) :
                Did([k |-> "scribble", i |-> i]) /\ Keep
AWrite == \E x \in Pieces \ Objects : \E v \in Vers(x) :
            /\ Did([k |-> "write", x |-> x, v |-> v])
            /\ owner' = [owner EXCEPT ![x] = v] /\ UNCHANGED <<seen, same>>
ARenew == \E x \in Pieces : \E v \in Vers(x) :
            /\ Did([k |-> "renew", x |-> x, v |-> v])
            /\ owner' = [owner EXCEPT ![x] = v] /\ UNCHANGED <<seen, same>>
ASave == \E p \in Paths : Did([k |-> "save", p |-> p]) /\ Keep
ALoad == \E p \in Paths : /\ Did([k |-> "load", p |-> p])
            /\ owner' = [owner EXCEPT !["model"] = st.file[p]] /\ UNCHANGED <<seen, same>>
AEnter == \E key \in MCfg : Did([k |-> "enter", key |-> key]) /\ Keep
AExit == Did([k |-> "exit"]) /\ Keep
ADrop == Did([k |-> "drop"]) /\ Keep
Weights == <<"query", "query", "query", "query", "query", "again", "again", "scribble", "scribble", "scribble", "write", "write",
             "renew", "file", "enter", "exit", "drop">>
Open(k) == CASE k = "again" -> \E j \in 1..Len(hist) : hist[j].k = "query"
             [] k = "scribble" -> st.held # <<>>
             [] k = "write" -> Pieces \ Objects # {}
             [] k = "renew" -> Pieces # {}
             [] k = "enter" -> Len(st.stack) < 2
             [] k = "exit" -> st.stack # <<>>
             [] OTHER -> TRUE
Choose == /\ Emit /\ want = "" /\ n < Depth /\ Cardinality(focus) = FocusSize
          /\ \E j \in 1..Len(Weights) : Open(Weights[j]) /\ want' = Weights[j]
          /\ UNCHANGED <<st, hist, owner, seen, same, n, focus, choice>>
Aim == /\ Emit /\ Cardinality(focus) < FocusSize
       /\ \E q \in choice \ focus : focus' = focus \cup {q}
       /\ UNCHANGED <<st, hist, owner, seen, same, n, want, choice>>
Turn(k) == ~Emit \/ want = k
Next == \/ Aim \/ Choose
        \/ Turn("query") /\ AQuery
        \/ Turn("again") /\ AAgain
        \/ Turn("scribble") /\ AScribble
        \/ Turn("write") /\ AWrite
        \/ Turn("renew") /\ ARenew
        \/ Turn("file") /\ (ASave \/ ALoad)
        \/ Turn("enter") /\ AEnter
        \/ Turn("exit") /\ AExit
        \/ Turn("drop") /\ ADrop

\* everything the user owns is as the user left it
OwnerInv == \A x \in Names : See(st, x) = <<x, owner[x]>>
\* results that the user did not touch stay as they were delivered
HeldInv == \A i \in 1..Len(st.held) : st.held[i].intact => st.heap[st.held[i].cell] = st.held[i].val
\* a query repeated under the same circumstances delivers the same
SameInv == same
\* no two things share a cell
ApartInv == \A i \in 1..Len(st.held) : /\ \A j \in 1..Len(st.held) : i # j => st.held[i].cell # st.held[j].cell
                                       /\ \A x \in Names : st.at[x] # st.held[i].cell
EmitInv == (Emit /\ n = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
