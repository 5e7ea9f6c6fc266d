------------------------------- MODULE NetGen -------------------------------
(***************************************************************************)
(* The random network generator.  Variables are 1..n with cardinalities    *)
(* cards; a graph is a set of ordered pairs <<parent, child>>; parameters  *)
(* are, for every variable, one matrix per combination of the states of    *)
(* its parents, the parents taken in the order of the variables.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pairs(n) == {p \in (1..n) \X (1..n) : p[1] # p[2]}

\* the parents of x in the order of the variables
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Ordered(S \ {m})
ParentsOf(g, x) == Ordered({p \in {e[1] : e \in g} : <<p, x>> \in g})

\* all combinations of the states of the parents ps
RECURSIVE Combs(_, _)
Combs(cards, ps) ==
    IF ps = <<>> THEN {<<>>}
    ELSE {<<v>> \o c : v \in 0..cards[ps[1]] - 1, c \in Combs(cards, Tail(ps))}
ConfigsOf(cards, g, x) == Combs(cards, ParentsOf(g, x))

\* a density num/den asks for a whole number of edges
Whole(n, num, den) == (num * n * (n - 1)) % den = 0
Wanted(n, num, den) == (num * n * (n - 1)) \div den

\* the graphs a request can lead to
Possible(n, num, den, fixed) ==
    IF fixed THEN {g \in SUBSET Pairs(n) : Cardinality(g) = Wanted(n, num, den)}
    ELSE IF num = 0 THEN {{}} ELSE IF num = den THEN {Pairs(n)} ELSE SUBSET Pairs(n)

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Abs(x) == IF x < 0 THEN -x ELSE x

\* an intensity matrix in units of 1/10000, its magnitudes asked for in [lo, hi] (same units)
ValidMatrix(m, card, lo, hi) ==
    /\ Len(m) = card
    /\ \A i \in 1..card :
         /\ Len(m[i]) = card
         /\ m[i][i] < 0 /\ lo - 1 <= -m[i][i] /\ -m[i][i] <= hi + 1
         /\ \A j \in 1..card : j # i => m[i][j] >= 0
         /\ 2 * Abs(SumSeq(m[i])) <= card + 2
=============================================================================
