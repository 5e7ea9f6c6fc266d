------------------------------ MODULE Recovery ------------------------------
(***************************************************************************)
(* What learning is for: from enough data of a network, its structure and  *)
(* its intensities come back.                                              *)
(*                                                                         *)
(* The first part says when the two families of algorithms must find the   *)
(* parents `pa' of a node, whatever the order of their steps: the tests    *)
(* (or scores) need only be right where the truth determines them, and may *)
(* answer anything elsewhere (RecoveryMC).                                 *)
(* The second part says when a network acts strongly enough, and data      *)
(* shows enough of it, for tests and scores to be right (RecoveryTrace).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* indep[<<X, S>>]: the test of candidate X given S answers "independent"
Faithful(indep, pa) ==
    \A w \in DOMAIN indep : /\ w[1] \in pa => ~indep[w]
                            /\ w[1] \notin pa /\ pa \subseteq w[2] => indep[w]

\* f[S]: the score of parent set S
Guiding(f, cands, pa) ==
    \A S \in SUBSET cands : \A X \in cands \ S :
        /\ X \in pa => f[S \union {X}] > f[S]
        /\ X \notin pa /\ pa \subseteq S => f[S \union {X}] < f[S]

\* ---------------------------------------------------------------- strong networks
\* net: [n, cards, parents: sequence of sequences, q: per variable a function of parent states to matrices]
Abs(a) == IF a < 0 THEN 0 - a ELSE a
\* states of two rows of a matrix that tell them apart: the rate of leaving, or where it goes
Rate(a, i) == 0 - a[i][i]
FarRates(a, b, i) == Rate(a, i) >= 3 * Rate(b, i) \/ Rate(b, i) >= 3 * Rate(a, i)
FarGoals(a, b, i) == \E j \in DOMAIN a : j # i /\ Abs(((100 * a[i][j]) \div Rate(a, i)) - ((100 * b[i][j]) \div Rate(b, i))) >= 55
Far(a, b) == \E i \in DOMAIN a : FarRates(a, b, i) \/ FarGoals(a, b, i)

\* the two farthest states of a parent can be told apart, whatever the states of the other parents
Strong(net) ==
    \A x \in 1..net.n : \A k \in DOMAIN net.parents[x] :
        LET top == net.cards[net.parents[x][k]] - 1 IN
        \A u \in DOMAIN net.q[x] : u[k] = 0 => Far(net.q[x][u], net.q[x][[u EXCEPT ![k] = top]])

Enough == 50
\* seen[x][u][i]: how often variable x left its state i while its parents were in configuration u
ShowsAll(seen) == \A x \in DOMAIN seen : \A u \in DOMAIN seen[x] : \A i \in DOMAIN seen[x][u] : seen[x][u][i] >= Enough

Edges(net) == UNION {{<<net.parents[x][k], x>> : k \in DOMAIN net.parents[x]} : x \in 1..net.n}
Absent(net) == {<<a, b>> \in (1..net.n) \X (1..net.n) : a # b} \ Edges(net)

\* ---------------------------------------------------------------- intensities
Root(k) == CHOOSE r \in 0..400 : r * r <= k /\ k < (r + 1) * (r + 1)
\* the estimate c of intensity q after k such transitions is within 7 standard deviations (numbers in 1/100)
Near(c, q, k) == Abs(c - q) * Root(k) <= 7 * q + 14
=============================================================================
