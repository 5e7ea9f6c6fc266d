----------------------------- MODULE IndepTest -----------------------------
(***************************************************************************)
(* The independence test of a node x and a candidate parent X given a set  *)
(* S of other nodes, from the exact statistics st1 (parents S) and st2     *)
(* (parents S and X) of x.                                                 *)
(*                                                                         *)
(* Quantiles come in tables (scipy): tb.F[m1][m2] = <<floor(lo*10^5),      *)
(* floor(hi*10^5)>> of the F distribution with m1 and m2 degrees of        *)
(* freedom, tb.chi[df] = floor(q*10^4).  Comparisons are done on integers; *)
(* when rounding leaves the outcome open both verdicts are allowed, so a   *)
(* decision is a set of Booleans.                                          *)
(***************************************************************************)
EXTENDS Stats, FiniteSetsExt

Cap == 20000
CapScaled == 2000000000

RECURSIVE Digits(_, _, _, _)
Digits(q, r, den, d) == IF d = 0 THEN q ELSE Digits(q * 10 + (r * 10) \div den, (r * 10) % den, den, d - 1)
\* floor(num/den * 10^d), capped
Scaled(num, den, d) == IF num \div den >= Cap THEN CapScaled ELSE Digits(num \div den, num % den, den, d)

Slack == 2
\* f <= true value * scale < f + k;  l <= limit * scale < l + 1
Below(f, k, l) == IF f + k + Slack <= l THEN {TRUE} ELSE IF f >= l + 1 + Slack THEN {FALSE} ELSE {TRUE, FALSE}
Above(f, k, l) == IF f >= l + 1 + Slack THEN {TRUE} ELSE IF f + k + Slack <= l THEN {FALSE} ELSE {TRUE, FALSE}

AnyOf(D) == IF {TRUE} \in D THEN {TRUE} ELSE IF {TRUE, FALSE} \in D THEN {TRUE, FALSE} ELSE {FALSE}

\* the rate of leaving state v: (m-1)/(t+1) with and without the candidate; no verdict without degrees of freedom
FRejects(tb, m1, t1, m2, t2, un, ud) ==
    IF m1 < 2 \/ m2 < 1 THEN {FALSE}
    ELSE LET f == Scaled((m2 - 1) * (t1 * un + ud), (m1 - 1) * (t2 * un + ud), 5)
             q == tb.F[m1][m2]
         IN AnyOf({Below(f, 1, q[1]), Above(f, 1, q[2])})

\* where the transitions out of state v go: row1, row2 are the rows of counts, the diagonal the row totals
ChiTerm(r1, r2, a, b) == LET d == r1 * b - r2 * a IN IF a + b = 0 THEN 0 ELSE Scaled(d * d, r1 * r2 * (a + b), 4)
RECURSIVE ChiSum(_, _, _, _)
ChiSum(row1, row2, v, w) ==
    IF w = 0 THEN 0
    ELSE ChiSum(row1, row2, v, w - 1) + (IF w = v THEN 0 ELSE ChiTerm(row1[v], row2[v], row1[w], row2[w]))
ChiRejects(tb, row1, row2, v) ==
    IF row1[v] = 0 \/ row2[v] = 0 THEN {FALSE}
    ELSE Above(ChiSum(row1, row2, v, Len(row1)), Len(row1), tb.chi[Len(row1) - 1])

\* one configuration: statistics without (T1, M1) and with (T2, M2) the candidate
PairRejects(tb, T1, M1, T2, M2, un, ud) ==
    AnyOf({FRejects(tb, M1[v][v], T1[v], M2[v][v], T2[v], un, ud) : v \in 1..Len(T1)}
          \union {ChiRejects(tb, M1[v], M2[v], v) : v \in 1..Len(T1)})

\* the configuration of ps1 inside configuration u2 of ps2 (both in column order, ps1 a subsequence of ps2)
Project(cards, ps1, ps2, u2) ==
    LET c == CombOf(cards, ps2, u2)
    IN CfgOf(cards, ps1, [k \in 1..Len(ps1) |-> c[CHOOSE j \in 1..Len(ps2) : ps2[j] = ps1[k]]], Len(ps1))

\* too few transitions for a valid test in some configuration of S (thr: the threshold in quarters)
TooFew(cards, x, X, ps1, st1, thr) ==
    /\ cards[x] > 2
    /\ \E u \in 1..NConfigs(cards, ps1) :
          4 * FoldLeft(LAMBDA a, v : a + st1.M[u][v][v], 0, [v \in 1..cards[x] |-> v])
             < thr * (cards[x] - 1) * (cards[x] - 1) * cards[X] * NConfigs(cards, ps1)

Rejects(tb, cards, ps1, ps2, st1, st2, un, ud) ==
    AnyOf({LET u == Project(cards, ps1, ps2, u2) + 1
           IN PairRejects(tb, st1.T[u], st1.M[u], st2.T[u2 + 1], st2.M[u2 + 1], un, ud)
             : u2 \in 0..(NConfigs(cards, ps2) - 1)})

\* [ans: judged independent, prot: the edge may no longer be removed], both as sets of possible values
Decide(tb, cards, x, X, S, stat, un, ud, thr) ==
    LET ps1 == SortedSet(S)
        ps2 == SortedSet(S \union {X})
        st1 == stat[S]
        st2 == stat[S \union {X}]
        rej == Rejects(tb, cards, ps1, ps2, st1, st2, un, ud)
    IN IF TooFew(cards, x, X, ps1, st1, thr)
       THEN [ans |-> {FALSE}, prot |-> IF TRUE \in rej THEN {TRUE, FALSE} ELSE {TRUE}]
       ELSE [ans |-> {~r : r \in rej}, prot |-> {FALSE}]
=============================================================================
