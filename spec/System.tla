------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The parts put together: networks are sampled, trajectories are written  *)
(* to documents or handed over in memory, imported, turned into sample     *)
(* paths, and statistics are taken of them.                                *)
(*                                                                         *)
(* State: nets   the networks (Sampling), fixed                            *)
(*        trajs  trajectories sampled so far: [net, rows], rows being      *)
(*               <<time, x_1, ..., x_n>>                                   *)
(*        docs   documents by name: sequences of [net, which] (which: the  *)
(*               numbers of the trajectories, in order)                    *)
(*        paths  sample paths: [net, which, prior]                         *)
(*        learned  learned edges by path                                   *)
(* Every operation adds to its own component and leaves the rest alone;    *)
(* what any later operation shows is a function of this state.             *)
(***************************************************************************)
EXTENDS Importing, Sampling, Stats

\* ---------------------------------------------------------------- sampled trajectories
RowState(r) == Tail(r)
ValidRows(net, rows) ==
    /\ Len(rows) >= 1 /\ rows[1][1] = 0
    /\ \A k \in 1..Len(rows) - 1 : rows[k + 1][1] >= rows[k][1]
    /\ RowState(rows[Len(rows)]) = Closing(net)
    /\ Len(rows) > 1 => RowState(rows[1]) = Zero(net)
    /\ \A k \in 1..Len(rows) - 2 : Jump(net, RowState(rows[k]), RowState(rows[k + 1]))
Within(rows, maxtr, tend) ==
    /\ maxtr >= 0 => Len(rows) = maxtr + 1
    /\ tend >= 0 => \A k \in DOMAIN rows : rows[k][1] <= tend

\* ---------------------------------------------------------------- what a sample path holds
Columns(net) == [j \in 1..net.n |-> j]
DataOf(s, net, which) == [cols |-> Columns(net), traj |-> [k \in DOMAIN which |-> s.trajs[which[k]].rows]]
RecsOf(s, p) == Records(DataOf(s, s.nets[p.net], p.which), Columns(s.nets[p.net]))
StatsFor(s, p, x, ps) == StatsOf(RecsOf(s, p), s.nets[p.net].n, s.nets[p.net].cards, x, ps)

EdgesOf(net) == {<<net.parents[j][i], j>> : <<i, j>> \in {<<i, j>> \in (1..net.n) \X (1..net.n) : i \in DOMAIN net.parents[j]}}

\* ---------------------------------------------------------------- operations
Sampled(s, k, rows) == [s EXCEPT !.trajs = Append(@, [net |-> k, rows |-> rows])]
Written(s, f, parts) == [s EXCEPT !.docs = [g \in DOMAIN @ \union {f} |-> IF g = f THEN parts ELSE @[g]]]
FromDocument(s, f, i) == [net |-> s.docs[f][i].net, which |-> s.docs[f][i].which, prior |-> EdgesOf(s.nets[s.docs[f][i].net])]
FromMemory(s, k, which, prior) == [net |-> k, which |-> which, prior |-> prior]
WithPath(s, p) == [s EXCEPT !.paths = Append(@, p), !.learned = Append(@, {})]
\* edges learned but not among the prior ones; without a prior structure there is nothing to compare with
Spurious(E, prior) == IF prior = {} THEN {} ELSE E \ prior
Learned(s, k, E) == [s EXCEPT !.learned[k] = E]

Edited(s, k, add, edge) == [s EXCEPT !.paths[k].prior = IF add THEN @ \union {edge} ELSE @ \ {edge}]

Fresh(nets) == [nets |-> nets, trajs |-> <<>>, docs |-> [f \in {} |-> <<>>], paths |-> <<>>, learned |-> <<>>]

\* ---------------------------------------------------------------- conservation along the chain
Sum(q) == FoldLeft(LAMBDA a, v : a + v, 0, q)
EndOf(rows) == rows[Len(rows)][1]
\* changes of x that were observed: the state after the last change was overwritten by the closing row
JumpsOf(rows, x) == Cardinality({k \in 1..Len(rows) - 2 : rows[k][1 + x] # rows[k + 1][1 + x]})
TimeConserved(s, p, x, ps) ==
    Sum([u \in DOMAIN StatsFor(s, p, x, ps).T |-> Sum(StatsFor(s, p, x, ps).T[u])]) = Sum([k \in DOMAIN p.which |-> EndOf(s.trajs[p.which[k]].rows)])
JumpsConserved(s, p, x, ps) ==
    Sum([u \in DOMAIN StatsFor(s, p, x, ps).M |-> Sum([v \in DOMAIN StatsFor(s, p, x, ps).M[u] |-> StatsFor(s, p, x, ps).M[u][v][v]])])
        = Sum([k \in DOMAIN p.which |-> JumpsOf(s.trajs[p.which[k]].rows, x)])
=============================================================================
