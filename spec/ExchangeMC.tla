----------------------------- MODULE ExchangeMC -----------------------------
(***************************************************************************)
(* All networks of N variables, all orders of their edges: export, reorder *)
(* of the edges by the reader (an equivalent document), import, and a look *)
(* at the matrix selected in every state.  Matrices are distinct names.    *)
(***************************************************************************)
EXTENDS Exchange, TLC

CONSTANTS N, MaxCard, MaxEdges

VARIABLES cards, edges, doc, phase
vars == <<cards, edges, doc, phase>>

Pairs == {p \in (1..N) \X (1..N) : p[1] # p[2]}
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, k \in 1..Cardinality(S) : i # k => q[i] # q[k]}
Q(es) == [j \in 1..N |-> [c \in Combs(cards, ParentsIn(es, j)) |-> <<j, c>>]]
NoDoc == [vars |-> <<>>, edges |-> <<>>, cims |-> <<>>]

Init == /\ cards \in [1..N -> 2..MaxCard]
        /\ edges \in UNION {Orders(S) : S \in {S \in SUBSET Pairs : Cardinality(S) <= MaxEdges}}
        /\ doc = NoDoc /\ phase = "net"

Write == phase = "net" /\ doc' = Export(N, cards, edges, Q(edges)) /\ phase' = "doc" /\ UNCHANGED <<cards, edges>>
Shuffle == /\ phase = "doc" /\ \E o \in Orders(Set(doc.edges)) : doc' = [doc EXCEPT !.edges = o]
           /\ phase' = "shuffled" /\ UNCHANGED <<cards, edges>>

Next == Write \/ Shuffle
Spec == Init /\ [][Next]_vars

States == {x \in [1..N -> 0..MaxCard - 1] : \A j \in 1..N : x[j] < cards[j]}
SameSelection ==
    phase # "net" => \A x \in States : \A j \in 1..N :
        LET ps == ParentsIn(edges, j) IN Selected(doc, x, j) = Q(edges)[j][[i \in DOMAIN ps |-> x[ps[i]]]]
SameNetwork == phase # "net" => /\ doc.vars = [j \in 1..N |-> <<j, cards[j]>>]
                                /\ Set(doc.edges) = Set(edges) /\ Len(doc.edges) = Len(edges)
OneKeyEach == phase # "net" => \A j \in 1..N : \A e, f \in doc.cims[j] : e.key = f.key => e = f
=============================================================================
