------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Networks written to and read from documents.  A network: variables 1..n *)
(* with cardinalities, a sequence of edges <<parent, child>> in any order, *)
(* and per variable a function from parent configurations (states of the   *)
(* parents in the order of the variables) to matrices.  In a document the  *)
(* matrices of a variable are keyed by the states of its parents by name.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Ordered(S \ {m})
Set(q) == {q[i] : i \in DOMAIN q}
ParentsIn(edges, j) == Ordered({e[1] : e \in {e \in Set(edges) : e[2] = j}})

RECURSIVE Combs(_, _)
Combs(cards, ps) == IF ps = <<>> THEN {<<>>} ELSE {<<v>> \o c : v \in 0..cards[ps[1]] - 1, c \in Combs(cards, Tail(ps))}

\* the key of a configuration: states by parent
KeyOf(ps, comb) == {<<ps[i], comb[i]>> : i \in DOMAIN ps}
\* the configuration a key stands for
CombOf(ps, key) == [i \in DOMAIN ps |-> (CHOOSE k \in key : k[1] = ps[i])[2]]

ExportNode(cards, edges, q, j) ==
    LET ps == ParentsIn(edges, j) IN {[key |-> KeyOf(ps, c), m |-> q[j][c]] : c \in Combs(cards, ps)}
Export(n, cards, edges, q) ==
    [vars |-> [j \in 1..n |-> <<j, cards[j]>>], edges |-> edges, cims |-> [j \in 1..n |-> ExportNode(cards, edges, q, j)]]

\* the matrix a reader of the document uses for variable j in the state x of the network
Selected(doc, x, j) ==
    LET ps == ParentsIn(doc.edges, j) IN
    (CHOOSE e \in doc.cims[j] : CombOf(ps, e.key) = [i \in DOMAIN ps |-> x[ps[i]]]).m
=============================================================================
