----------------------------- MODULE IndepTrace -----------------------------
EXTENDS TraceBase, Importing, IndepTest, Ctpc
\* meta: data = [<data set>], un, ud, ests = sequence of [fi, ci, thr (in quarters), known (pairs of node numbers)]
\* IOEnv.TABLES: quantiles

Tables == JsonDeserialize(IOEnv.TABLES)

IPInit(meta) ==
    LET d == meta.data[1]
        recs == Records(d, d.cols)
        n == Len(d.cols)
        cards == [j \in 1..Len(d.vars) |-> d.vars[j][2]]
    IN {[n |-> n, cards |-> cards, un |-> meta.un, ud |-> meta.ud,
         ests |-> [k \in 1..Len(meta.ests) |-> [meta.ests[k] EXCEPT !.known = RangeOf(@)]],
         \* edges a test asked for directly may have protected (it lacked data), per estimator
         prot |-> [k \in 1..Len(meta.ests) |-> {}],
         stat |-> TLCEval([x \in 1..n |-> TLCEval([P \in SUBSET ((1..n) \ {x}) |->
                              TLCEval(StatsOf(recs, n, cards, x, SortedSet(P)))])])]}

Verdict(s, k, x, X, S) ==
    Decide([F |-> Tables.F[s.ests[k].fi], chi |-> Tables.chi[s.ests[k].ci]],
           s.cards, x, X, S, s.stat[x], s.un, s.ud, s.ests[k].thr)

TestWhy(s, e) ==
    IF e.err # "" THEN {"TestComputed"}
    ELSE IF e.ans \in Verdict(s, e.est, e.x, e.cand, RangeOf(e.set)).ans THEN {} ELSE {"VerdictFollowsFromStatistics"}

ParentsIn(e, x) == {e.edges[i][1] : i \in {i \in DOMAIN e.edges : e.edges[i][2] = x}}

LearnWhy(s, e) ==
    IF e.err # "" THEN {"LearningEnds"} ELSE
    UNION ({IF Cardinality(RangeOf(e.edges)) = Len(e.edges) THEN {} ELSE {"EdgesOnce"}} \union
           {LET cands == (1..s.n) \ {x}
                known == {c \in cands : <<c, x>> \in s.ests[e.est].known}
                V == TLCEval([X \in cands |-> TLCEval([S \in SUBSET (cands \ {X}) |-> Verdict(s, e.est, x, X, S)])])
                F == ParentsIn(e, x)
            IN IF ~(known \subseteq F) THEN {"KnownEdgesKept"}
               ELSE IF \E Q \in SUBSET {c \in cands \ known : <<c, x>> \in s.prot[e.est]} : F \in AllOutcomes(V, cands, known \union Q)
               THEN {} ELSE {"LearnedFromVerdicts"}
              : x \in 1..s.n})

IPWhy(s, e) ==
    CASE e.a = "test" -> TestWhy(s, e)
      [] e.a = "learn" -> LearnWhy(s, e)

IPSucc(s, e) ==
    IF IPWhy(s, e) # {} THEN {}
    ELSE IF e.a = "test" /\ ~e.fresh /\ TRUE \in Verdict(s, e.est, e.x, e.cand, RangeOf(e.set)).prot
         THEN {[s EXCEPT !.prot[e.est] = @ \union {<<e.cand, e.x>>}]}
         ELSE {s}
=============================================================================
