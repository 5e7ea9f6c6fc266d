------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* The views of a learned structure over the variables 1..n:               *)
(*   learned: set of edges <<parent, child>>; prior: edges of the prior    *)
(*   structure ({} without one).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Adjacency(n, E) == [i \in 1..n |-> [j \in 1..n |-> <<i, j>> \in E]]
FromAdjacency(A) == {e \in (DOMAIN A) \X (DOMAIN A) : A[e[1]][e[2]]}
Document(n, E) == [nodes |-> 1..n, links |-> E]
Spurious(E, prior) == IF prior = {} THEN {} ELSE E \ prior
Complete(n) == {e \in (1..n) \X (1..n) : e[1] # e[2]}     \* what the views describe before anything is learned
LoopFree(E) == \A e \in E : e[1] # e[2]
=============================================================================
