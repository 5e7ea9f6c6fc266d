------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Trajectories of a network: variables 1..n, parents[j] the parents of j  *)
(* in the order of the variables, q[j][u] the intensity matrix of j under  *)
(* the parent configuration u (a sequence of states).  States count from 0.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Config(net, x, j) == [i \in 1..Len(net.parents[j]) |-> x[net.parents[j][i]]]
Matrix(net, x, j) == net.q[j][Config(net, x, j)]
\* intensity of j going from its state in x to y
Rate(net, x, j, y) == Matrix(net, x, j)[x[j] + 1][y + 1]
Leaving(net, x, j) == -Matrix(net, x, j)[x[j] + 1][x[j] + 1]

Zero(net) == [j \in 1..net.n |-> 0]
Closing(net) == [j \in 1..net.n |-> -1]
Children(net, j) == {k \in 1..net.n : \E i \in 1..Len(net.parents[k]) : net.parents[k][i] = j}

\* the variables in which two states differ
Changed(x, y) == {j \in DOMAIN x : x[j] # y[j]}

\* y may follow x
Jump(net, x, y) ==
    /\ Len(y) = net.n
    /\ Cardinality(Changed(x, y)) = 1
    /\ \A j \in Changed(x, y) : y[j] \in 0..net.cards[j] - 1 /\ Rate(net, x, j, y[j]) > 0
=============================================================================
