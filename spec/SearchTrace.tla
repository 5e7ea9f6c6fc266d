---------------------------- MODULE SearchTrace ----------------------------
EXTENDS TraceBase, Search
\* meta: p (cands and prior as sequences of node numbers), score (index 1 + bit mask of the parent set)
\* A parent set is a sequence of candidate numbers 1..k; its mask is SUM 2^(i-1).

SetOf(q) == {q[i] : i \in DOMAIN q}

SRInit(meta) ==
    LET p == [meta.p EXCEPT !.cands = SetOf(@), !.prior = SetOf(@)]
    IN {[p |-> p, table |-> meta.score, s |-> SearchInit, d |-> FairInit(p)]}

RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 ^ (x - 1) + Mask(S \ {x})
ScoreIn(st, S) == st.table[Mask(S) + 1]

\* enough iterations to have proposed everybody (the odds against are below e^-60)
LongRun(p) == p.iters >= 60 * Cardinality(p.cands) /\ p.patience < 0

EvalWhy(st, e) ==
    LET p == st.p  s == st.s  S == SetOf(e.set) IN
    IF ~s.started THEN (IF S = p.prior THEN {} ELSE {"StartsFromKnownParents"})
    ELSE IF Stopped(p, s) THEN {"StopsWhenItShould"}
    ELSE LET legal == {c \in p.cands : S \in Moves(p, s, c)} IN
         IF legal = {} THEN {"MoveTogglesOneCandidate"}
         ELSE IF legal \cap Proposable(p, s) = {} THEN {"TabuRespected"}
         ELSE IF \E c \in legal \cap Proposable(p, s) : Fair(FairAfter(p, s, st.d, c, S)) THEN {} ELSE {"DrawsAmongAllThatMayBeChosen"}

ResultWhy(st, e) ==
    LET p == st.p  s == st.s IN
    IF e.err # "" THEN {"TerminatesWithoutError"} ELSE
    UNION { IF s.started /\ ~Stopped(p, s) THEN {"StopsOnlyWhenItShould"} ELSE {},
            IF e.foreign = 0 THEN {} ELSE {"OnlyEdgesIntoTheNode"},
            IF SetOf(e.set) = s.cur THEN {} ELSE {"ReturnsBestParentSet"},
            IF Cardinality(SetOf(e.set)) = Len(e.set) THEN {} ELSE {"EdgesOnce"},
            IF LongRun(p) /\ s.started /\ ~Stuck(p, s) /\ s.tried # p.cands THEN {"EveryCandidateProposed"} ELSE {} }

\* a run seen from outside only: an uphill path leads to the result, and a long run ends in a local optimum
OutsideWhy(st, e) ==
    LET p == st.p  F == SetOf(e.set)  Sc == [S \in SUBSET (p.prior \union p.cands) |-> ScoreIn(st, S)] IN
    IF e.err # "" THEN {"TerminatesWithoutError"} ELSE
    UNION { IF e.foreign = 0 /\ Cardinality(F) = Len(e.set) THEN {} ELSE {"OnlyEdgesIntoTheNode"},
            IF ~(p.prior \subseteq F /\ F \subseteq p.prior \union p.cands) THEN {"KnownParentsKept"}
            ELSE UNION {
              IF F \in ReachUp(p, {p.prior}, Sc) THEN {} ELSE {"OnlyUphillMoves"},
              IF LongRun(p) /\ ~Stuck(p, [cur |-> F]) /\ UphillFrom(p, F, Sc) # {} THEN {"LongRunEndsInLocalOptimum"} ELSE {},
              IF p.maxp >= 0 /\ Cardinality(F) > p.maxp /\ ~(F \subseteq p.prior) THEN {"ParentLimit"} ELSE {} } }

SRWhy(st, e) ==
    CASE e.a = "node" -> {}
      [] e.a = "eval" -> EvalWhy(st, e)
      [] e.a = "result" -> ResultWhy(st, e)
      [] e.a = "outside" -> OutsideWhy(st, e)

SRSucc(st, e) ==
    IF SRWhy(st, e) # {} THEN {}
    ELSE CASE e.a = "node" -> LET p == [e.p EXCEPT !.cands = SetOf(@), !.prior = SetOf(@)]
                                   IN {[st EXCEPT !.p = p, !.table = e.score, !.s = SearchInit, !.d = FairInit(p)]}
           [] e.a = "eval" ->
                 LET S == SetOf(e.set) IN
                 IF ~st.s.started THEN {[st EXCEPT !.s = Started(st.p, st.s, ScoreIn(st, S))]}
                 ELSE {[st EXCEPT !.s = Iterated(st.p, st.s, c, S, ScoreIn(st, S)), !.d = FairAfter(st.p, st.s, st.d, c, S)] :
                          c \in {c \in Proposable(st.p, st.s) : S \in Moves(st.p, st.s, c) /\ Fair(FairAfter(st.p, st.s, st.d, c, S))}}
           [] OTHER -> {[st EXCEPT !.s = SearchInit, !.d = FairInit(st.p)]}
=============================================================================
