--------------------------- MODULE ExchangeTrace ---------------------------
EXTENDS TraceBase, Exchange, Importing
\* meta: n, cards, edges, q (per variable a list of [comb, m], matrices as decimal strings).
\*   add    traj                          a trajectory (rows <<time, states...>>) was handed to the exporter
\*   file   err vars edges cims samples   what was written
\*   import err cols recs vars edges      what an importer makes of it
\*   twin   err same                      original and reimported generator sample the same path from the same seed

ECInit(meta) ==
    {[n |-> meta.n, cards |-> meta.cards, edges |-> meta.edges,
      q |-> [j \in 1..meta.n |-> [u \in {meta.q[j][i].comb : i \in DOMAIN meta.q[j]} |->
               (CHOOSE c \in {meta.q[j][i] : i \in DOMAIN meta.q[j]} : c.comb = u).m]],
      trajs |-> <<>>]}

NodeWhy(s, e, j) ==
    LET written == {[key |-> Set(e.cims[j][i].key), m |-> e.cims[j][i].m] : i \in DOMAIN e.cims[j]}
        want == ExportNode(s.cards, s.edges, s.q, j) IN
    IF {w.key : w \in written} # {w.key : w \in want} \/ Len(e.cims[j]) # Cardinality(want) THEN {"OneMatrixPerConfiguration"}
    ELSE IF written = want THEN {} ELSE {"SameMatrices"}

EdgesOk(s, es) == Set(es) = Set(s.edges) /\ Len(es) = Len(s.edges)
VarsOk(s, vs) == vs = [j \in 1..s.n |-> <<j, s.cards[j]>>]

FileWhy(s, e) ==
    IF e.err # "" THEN {"Exported"} ELSE
    UNION { IF VarsOk(s, e.vars) THEN {} ELSE {"SameVariables"},
            IF EdgesOk(s, e.edges) THEN {} ELSE {"SameEdges"},
            IF e.samples = s.trajs THEN {} ELSE {"SameTrajectoriesInOrder"},
            IF Len(e.cims) # s.n THEN {"ParametersOfEveryVariable"} ELSE UNION {NodeWhy(s, e, j) : j \in 1..s.n} }

ImportWhy(s, e) ==
    IF e.err # "" THEN {"Imported"} ELSE
    UNION { IF VarsOk(s, e.vars) THEN {} ELSE {"SameVariables"},
            IF EdgesOk(s, e.edges) THEN {} ELSE {"SameEdges"},
            IF e.cols = [j \in 1..s.n |-> j] /\ e.recs = Records([cols |-> [j \in 1..s.n |-> j], traj |-> s.trajs], [j \in 1..s.n |-> j])
               THEN {} ELSE {"SameTrajectoriesInOrder"} }

ECWhy(s, e) ==
    CASE e.a = "add" -> {}
      [] e.a = "file" -> FileWhy(s, e)
      [] e.a = "import" -> ImportWhy(s, e)
      [] e.a = "twin" -> IF e.err # "" THEN {"ReimportedNetworkSampled"} ELSE IF e.same THEN {} ELSE {"SameMatricesSelected"}

ECSucc(s, e) ==
    IF ECWhy(s, e) # {} THEN {} ELSE IF e.a = "add" THEN {[s EXCEPT !.trajs = Append(@, e.traj)]} ELSE {s}
=============================================================================
