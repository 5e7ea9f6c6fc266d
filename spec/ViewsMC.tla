------------------------------ MODULE ViewsMC ------------------------------
(***************************************************************************)
(* Learning replaces the result, queries do not change it: every sequence  *)
(* of learned graphs over a small number of variables.                     *)
(***************************************************************************)
EXTENDS Views, TLC
CONSTANTS N, MaxRuns
VARIABLES learned, prior, runs, adj, doc, spur
vars == <<learned, prior, runs, adj, doc, spur>>
Pairs == Complete(N)
None == [none |-> TRUE]
Init == /\ prior \in SUBSET Pairs /\ learned = Pairs /\ runs = 0 /\ adj = None /\ doc = None /\ spur = None
Learn == /\ runs < MaxRuns /\ learned' \in SUBSET Pairs /\ runs' = runs + 1
         /\ adj' = None /\ doc' = None /\ spur' = None /\ UNCHANGED prior
Query == /\ adj = None
         /\ adj' = Adjacency(N, learned) /\ doc' = Document(N, learned) /\ spur' = Spurious(learned, prior)
         /\ UNCHANGED <<learned, prior, runs>>
Next == Learn \/ Query
Spec == Init /\ [][Next]_vars
SameGraph == adj # None => /\ FromAdjacency(adj) = learned /\ doc.links = learned /\ doc.nodes = 1..N
                           /\ LoopFree(learned)
                           /\ spur \subseteq learned /\ spur \cap prior = {}
                           /\ (prior # {} => learned = spur \union (learned \cap prior))
=============================================================================
