----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS TraceBase, Views
\* meta: n, prior (pairs of variable numbers), must = edges a run must at least learn
SetOf(q) == {q[i] : i \in DOMAIN q}
Once(q, E) == SetOf(q) = E /\ Len(q) = Cardinality(E)

VWInit(meta) == {[n |-> meta.n, prior |-> SetOf(meta.prior), learned |-> [k \in 1..meta.ests |-> Complete(meta.n)]]}

VWWhy(s, e) ==
    IF e.err # "" THEN {"NoError"} ELSE
    CASE e.a = "learn" -> IF Cardinality(SetOf(e.edges)) = Len(e.edges) /\ LoopFree(SetOf(e.edges)) /\ e.foreign = 0
                          THEN {} ELSE {"SimpleDirectedGraph"}
      [] e.a = "adjacency" -> IF e.m = Adjacency(s.n, s.learned[e.k]) THEN {} ELSE {"AdjacencyMatrix"}
      [] e.a = "saved" -> UNION {IF Once(e.nodes, 1..s.n) THEN {} ELSE {"SavedNodes"},
                                 IF Once(e.links, s.learned[e.k]) /\ e.directed THEN {} ELSE {"SavedEdges"}}
      [] e.a = "spurious" -> IF Once(e.edges, Spurious(s.learned[e.k], s.prior)) THEN {} ELSE {"SpuriousEdges"}

VWSucc(s, e) ==
    IF VWWhy(s, e) # {} THEN {}
    ELSE IF e.a = "learn" THEN {[s EXCEPT !.learned[e.k] = SetOf(e.edges)]} ELSE {s}
=============================================================================
