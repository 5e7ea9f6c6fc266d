------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Score based search for the parents of one node: hill climbing and tabu  *)
(* search, one action per iteration.                                       *)
(*                                                                         *)
(* p (parameters): [kind, cands, prior, maxp, iters, patience, tlen, tdur] *)
(*   cands: candidate parents (all other nodes but the known parents);     *)
(*   prior: known parents; -1 stands for "no limit".                       *)
(* s (state): [started, cur, best, it, pat, queue, cnt, tried]             *)
(*   cur: parent set kept so far, best: its score; queue: the tabu list,   *)
(*   oldest first.                                                         *)
(* f[S] is the score of parent set S.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ElemsOf(q) == {q[i] : i \in DOMAIN q}

TLen(p) == IF p.tlen < 0 THEN Cardinality(p.cands) ELSE p.tlen
TDur(p) == IF p.tdur < 0 THEN Cardinality(p.cands) ELSE p.tdur

SearchInit == [started |-> FALSE, cur |-> {}, best |-> 0, it |-> 0, pat |-> 0, queue |-> <<>>, cnt |-> 0, tried |-> {}]

\* the first evaluation: the known parents
Started(p, s, sc) == [s EXCEPT !.started = TRUE, !.cur = p.prior, !.best = sc]

\* no move left: nobody to propose, or the limit is reached by known parents alone
Stuck(p, s) == \/ p.cands = {}
               \/ p.maxp >= 0 /\ Cardinality(s.cur) >= p.maxp /\ s.cur \subseteq p.prior

Stopped(p, s) == \/ s.it >= p.iters
                 \/ p.patience >= 0 /\ s.pat > p.patience
                 \/ Stuck(p, s)

\* candidates that may be proposed now
Proposable(p, s) ==
    IF p.kind = "hill" THEN p.cands
    ELSE LET free == p.cands \ ElemsOf(s.queue)
         IN IF free # {} THEN free ELSE {Head(s.queue)}

\* the parent sets tried when c is proposed
Moves(p, s, c) ==
    IF c \in s.cur THEN {s.cur \ {c}}
    ELSE IF p.maxp >= 0 /\ Cardinality(s.cur) >= p.maxp
         THEN {(s.cur \ {r}) \union {c} : r \in s.cur \ p.prior}
         ELSE {s.cur \union {c}}

\* the candidate behind a tried set
ProposedBy(s, S) == IF S \ s.cur # {} THEN S \ s.cur ELSE s.cur \ S

\* bookkeeping of the tabu list after c was used
TabuAfter(p, s, c) ==
    LET q0 == IF c \in ElemsOf(s.queue) THEN Tail(s.queue) ELSE s.queue    \* all on the list: the oldest was taken
        q1 == Append(q0, c)
        q2 == IF Len(q1) > TLen(p) THEN Tail(q1) ELSE q1
        k  == s.cnt + 1
    IN IF k % TDur(p) = 0 THEN [queue |-> IF q2 = <<>> THEN q2 ELSE Tail(q2), cnt |-> 0]
       ELSE [queue |-> q2, cnt |-> k]

\* one iteration: c proposed, set S tried, scored sc
Iterated(p, s, c, S, sc) ==
    LET up == sc > s.best
        tb == IF p.kind = "hill" THEN [queue |-> s.queue, cnt |-> s.cnt] ELSE TabuAfter(p, s, c)
    IN [s EXCEPT !.cur = IF up THEN S ELSE @, !.best = IF up THEN sc ELSE @,
                 !.it = @ + 1, !.pat = IF up THEN 0 ELSE @ + 1,
                 !.queue = tb.queue, !.cnt = tb.cnt, !.tried = @ \union {c}]

\* ---------------------------------------------------------------- fairness of the random choices
\* Candidates are drawn among all that may be proposed, and the parent to be replaced among all that are not known.
\* d: [last, due, rdue]: the iteration in which a candidate was proposed last (0: never); how much probability (in
\* units of 1/Whole) has been due, since it last happened, to proposals of a candidate proposed g iterations ago
\* (g = 0: never proposed), and to the replacement of parent r.
Whole == 27720
Patient == 30 * Whole          \* odds of waiting in vain for that much: below e^-30
MaxAge(p) == 2 * Cardinality(p.cands) + 2
FairInit(p) == [last |-> [c \in p.cands |-> 0], due |-> [g \in 0..MaxAge(p) |-> 0], rdue |-> [c \in p.cands |-> 0]]
Age(p, s, d, c) == IF d.last[c] = 0 THEN 0 ELSE LET g == s.it + 1 - d.last[c] IN IF g > MaxAge(p) THEN MaxAge(p) ELSE g
FairAfter(p, s, d, c, S) ==
    LET F == Proposable(p, s)
        own == s.cur \ p.prior
        out == s.cur \ S
        swap == S \ s.cur # {} /\ out # {}
    IN [last |-> [d.last EXCEPT ![c] = s.it + 1],
        due |-> [g \in 0..MaxAge(p) |->
                    IF g = Age(p, s, d, c) THEN 0
                    ELSE d.due[g] + Cardinality({x \in F : Age(p, s, d, x) = g}) * (Whole \div Cardinality(F))],
        rdue |-> [r \in p.cands |->
                    IF r \notin s.cur \/ (swap /\ r \in out) THEN 0 ELSE IF swap THEN d.rdue[r] + (Whole \div Cardinality(own)) ELSE d.rdue[r]]]
Fair(d) == (\A g \in DOMAIN d.due : d.due[g] < Patient) /\ (\A r \in DOMAIN d.rdue : d.rdue[r] < Patient)

\* uphill moves from a parent set, whatever was proposed before; f: the score of every parent set
UphillFrom(p, S, f) ==
    {N \in UNION {Moves(p, [cur |-> S], c) : c \in p.cands} : f[N] > f[S]}

RECURSIVE ReachUp(_, _, _)
ReachUp(p, R, f) ==
    LET N == R \union UNION {UphillFrom(p, S, f) : S \in R}
    IN IF N = R THEN R ELSE ReachUp(p, N, f)
=============================================================================
