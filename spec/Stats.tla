------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Sufficient statistics of a node x given a set of parents, accumulated   *)
(* record by record, and the intensity matrices estimated from them.       *)
(*                                                                         *)
(* A record is <<dt>> \o state before \o state after (Importing.tla);      *)
(* nodes are columns 1..n; ps is the sequence of parents in column order.  *)
(* A configuration of the parents has the number                           *)
(*     sum_k state(ps[k]) * prod_{j<k} card(ps[j])     (first one fastest) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Prod(_, _, _)
Prod(cards, ps, k) == IF k = 0 THEN 1 ELSE Prod(cards, ps, k - 1) * cards[ps[k]]

NConfigs(cards, ps) == Prod(cards, ps, Len(ps))

RECURSIVE CfgOf(_, _, _, _)
CfgOf(cards, ps, vals, k) ==       \* vals[k]: state of parent ps[k]
    IF k = 0 THEN 0 ELSE CfgOf(cards, ps, vals, k - 1) + vals[k] * Prod(cards, ps, k - 1)

\* the combination of parent states with number u (0-based)
CombOf(cards, ps, u) == [k \in 1..Len(ps) |-> (u \div Prod(cards, ps, k - 1)) % cards[ps[k]]]

Combs(cards, ps) == [u \in 1..NConfigs(cards, ps) |-> CombOf(cards, ps, u - 1)]

\* parents in column order
SortedSet(S) == SetToSortSeq(S, <)

\* ---------------------------------------------------------------- statistics
ZeroStats(cards, x, ps) ==
    [T |-> [u \in 1..NConfigs(cards, ps) |-> [v \in 1..cards[x] |-> 0]],
     M |-> [u \in 1..NConfigs(cards, ps) |-> [v \in 1..cards[x] |-> [w \in 1..cards[x] |-> 0]]]]

\* one record: residence time always counts; a transition counts when the node moves to a known other state
AddRecord(n, cards, x, ps, acc, r) ==
    LET u == CfgOf(cards, ps, [k \in 1..Len(ps) |-> r[1 + ps[k]]], Len(ps)) + 1
        v == r[1 + x] + 1
        w == r[1 + n + x] + 1
    IN  [T |-> [acc.T EXCEPT ![u][v] = @ + r[1]],
         M |-> IF w = 0 \/ w = v THEN acc.M
               ELSE [acc.M EXCEPT ![u][v] = [@ EXCEPT ![w] = @ + 1, ![v] = @ + 1]]]

StatsOf(recs, n, cards, x, ps) ==
    FoldLeft(LAMBDA acc, r : AddRecord(n, cards, x, ps, acc, r), ZeroStats(cards, x, ps), recs)

\* statistics are additive: of a record that occurs k times, k times its share
ScaledStats(st, k) == [T |-> [u \in DOMAIN st.T |-> [v \in DOMAIN st.T[u] |-> k * st.T[u][v]]],
                  M |-> [u \in DOMAIN st.M |-> [v \in DOMAIN st.M[u] |-> [w \in DOMAIN st.M[u][v] |-> k * st.M[u][v][w]]]]]
Added(a, b) == [T |-> [u \in DOMAIN a.T |-> [v \in DOMAIN a.T[u] |-> a.T[u][v] + b.T[u][v]]],
                M |-> [u \in DOMAIN a.M |-> [v \in DOMAIN a.M[u] |-> [w \in DOMAIN a.M[u][v] |-> a.M[u][v][w] + b.M[u][v][w]]]]]
\* runs: a sequence of <<records, how often>>
StatsOfRuns(runs, n, cards, x, ps) ==
    FoldLeft(LAMBDA acc, r : Added(acc, ScaledStats(StatsOf(r[1], n, cards, x, ps), r[2])), ZeroStats(cards, x, ps), runs)

\* ---------------------------------------------------------------- intensities
\* a time of t ticks is t * un / ud; an intensity is a pair <<num, den>>
QNum(M, v, w, ud) == (IF v = w THEN 1 - M[v][v] ELSE M[v][w] + 1) * ud
QDen(T, v, un, ud) == T[v] * un + ud

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
\* q (a reduced pair, positive denominator) equals num/den
SameRat(q, num, den) ==
    LET g == GCD(IF num < 0 THEN -num ELSE num, den) IN q[1] = num \div g /\ q[2] = den \div g

CimOk(C, T, M, un, ud) ==
    /\ Len(C) = Len(T)
    /\ \A v \in 1..Len(T) : /\ Len(C[v]) = Len(T)
                            /\ \A w \in 1..Len(T) : SameRat(C[v][w], QNum(M, v, w, ud), QDen(T, v, un, ud))

\* ---------------------------------------------------------------- selection of matrices
\* numbers (1-based, ascending) of the configurations that agree with comb on the parents marked in mask
Marked(mask) == SelectSeq([k \in 1..Len(mask) |-> k], LAMBDA k : mask[k])
Selected(combs, mask, comb) ==
    LET m == Marked(mask)
    IN SelectSeq([u \in 1..Len(combs) |-> u], LAMBDA u : \A k \in 1..Len(m) : combs[u][m[k]] = comb[k])
=============================================================================
