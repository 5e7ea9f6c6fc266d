-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Learning a whole network: one task per node, handed out to workers in   *)
(* order, finished in any order.  Every worker works on its own copy of    *)
(* the estimator; in a sequential run the tasks share one estimator.       *)
(*   res[t]: the parents task t finds with a fresh estimator.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EdgesOf(t, parents) == {<<p, t>> : p \in parents}
Whole(res) == UNION {EdgesOf(t, res[t]) : t \in DOMAIN res}
=============================================================================
