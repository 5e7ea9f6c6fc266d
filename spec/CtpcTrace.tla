----------------------------- MODULE CtpcTrace -----------------------------
EXTENDS TraceBase, Ctpc
\* meta: n, known (sequence of pairs of node numbers).  Events of one node are in the order in which they happened.

SetOf(q) == {q[i] : i \in DOMAIN q}

CTInit(meta) == {[n |-> meta.n, known |-> SetOf(meta.known), x |-> 0, s |-> CtpcInit({}, {})]}

\* the state in which sets of size b are tested, reached by finished levels only
RECURSIVE UpTo(_, _)
UpTo(s, b) == IF s.b >= b \/ Ended(s) \/ ~LevelDone(s) THEN s ELSE UpTo(NextLevel(s, s.prot), b)

TestWhy(st, e) ==
    LET S == SetOf(e.set)  s == UpTo(st.s, Cardinality(S)) IN
    UNION { IF e.x = st.x THEN {} ELSE {"OneNodeAtATime"},
            IF e.cand \in s.u THEN {} ELSE {"OnlyRemainingParentsTested"},
            IF e.cand \in s.prot THEN {"KnownEdgesNotTested"} ELSE {},
            IF S \subseteq s.u \ {e.cand} THEN {} ELSE {"ConditionsOnRemainingParents"},
            IF Cardinality(S) = s.b THEN {} ELSE {"GrowingSetsAllTested"} }

ResultWhy(st, e) ==
    LET s == UpTo(st.s, st.n) IN
    UNION { IF Ended(s) THEN {} ELSE {"AllSubsetsTested"},
            IF SetOf(e.set) = s.u THEN {} ELSE {"RemovedExactlyWhenSeparated"} }

CTWhy(st, e) ==
    CASE e.a = "node" -> {}
      [] e.a = "test" -> TestWhy(st, e)
      [] e.a = "result" -> ResultWhy(st, e)
      [] e.a = "whole" -> UNION { IF e.err = "" THEN {} ELSE {"TerminatesWithoutError"},
                                  IF e.loops = 0 /\ e.dups = 0 /\ e.foreign = 0 THEN {} ELSE {"UnionOfNodeEdges"} }

CTSucc(st, e) ==
    IF CTWhy(st, e) # {} THEN {}
    ELSE CASE e.a = "node" -> LET cands == (1..st.n) \ {e.x} IN
                              {[st EXCEPT !.x = e.x, !.s = CtpcInit(cands, {c \in cands : <<c, e.x>> \in st.known})]}
           [] e.a = "test" -> {[st EXCEPT !.s = Tested(UpTo(@, Len(e.set)), e.cand, SetOf(e.set), e.ans)]}
           [] OTHER -> {st}
=============================================================================
