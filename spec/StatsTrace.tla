----------------------------- MODULE StatsTrace -----------------------------
EXTENDS TraceBase, Importing, Stats
\* meta: data = [<data set>], un, ud (one tick = un/ud), focus (clauses this property is about)

STInit(meta) ==
    LET d == meta.data[1] IN
    {[recs |-> IF InShort(d) THEN Runs(d, d.cols) ELSE <<<<Records(d, d.cols), 1>>>>, n |-> Len(d.cols), labels |-> d.cols,
      cards |-> [j \in 1..Len(d.vars) |-> d.vars[j][2]], un |-> meta.un, ud |-> meta.ud,
      focus |-> RangeOf(meta.focus)]}

NodeNo(s, l) == CHOOSE j \in 1..s.n : s.labels[j] = l

EstimateWhy(s, e) ==
    LET x == NodeNo(s, e.node)
        ps == SortedSet({NodeNo(s, e.parents[k]) : k \in 1..Len(e.parents)})
        st == StatsOfRuns(s.recs, s.n, s.cards, x, ps)
        nc == NConfigs(s.cards, ps)
    IN UNION { IF e.combs = Combs(s.cards, ps) THEN {} ELSE {"ConfigurationsEnumerated"},
               IF e.T = st.T THEN {} ELSE {"ResidenceTimesExact"},
               IF e.M = st.M THEN {} ELSE {"TransitionCountsExact"},
               IF Len(e.C) = nc /\ e.count = nc THEN {} ELSE {"OneMatrixPerConfiguration"},
               IF "IntensitiesExact" \notin s.focus \/ (Len(e.C) = nc /\ \A u \in 1..nc : CimOk(e.C[u], st.T[u], st.M[u], s.un, s.ud))
               THEN {} ELSE {"IntensitiesExact"},
               IF "StoredStatistics" \notin s.focus \/ \A u \in 1..Len(e.C) : CimOk(e.C[u], e.T[u], e.M[u], s.un, s.ud)
               THEN {} ELSE {"StoredStatistics"} }

\* matrices built directly from given statistics
DirectWhy(s, e) ==
    UNION { IF Len(e.C) = Len(e.T) /\ \A u \in 1..Len(e.T) : CimOk(e.C[u], e.T[u], e.M[u], s.un, s.ud)
            THEN {} ELSE {"IntensitiesExact"},
            IF e.T = e.T0 /\ e.M = e.M0 THEN {} ELSE {"StoredStatistics"} }

\* combinations of parents with the given cardinalities, and selections from them
CombsWhy(s, e) == IF e.combs = Combs(e.cards, [k \in 1..Len(e.cards) |-> k]) THEN {} ELSE {"ConfigurationsEnumerated"}
FilterWhy(s, e) == IF e.got = Selected(e.combs, e.mask, e.comb) THEN {} ELSE {"SelectionExact"}

STWhy(s, e) ==
    s.focus \cap
    (CASE e.a = "estimate" -> IF e.err # "" THEN s.focus ELSE EstimateWhy(s, e)
       [] e.a = "direct" -> IF e.err # "" THEN s.focus ELSE DirectWhy(s, e)
       [] e.a = "combs" -> IF e.err # "" THEN s.focus ELSE CombsWhy(s, e)
       [] e.a = "filter" -> IF e.err # "" THEN s.focus ELSE FilterWhy(s, e)
       [] e.a = "data" -> IF e.same THEN {} ELSE {"DataUntouched"})

STSucc(s, e) == IF STWhy(s, e) = {} THEN {s} ELSE {}
=============================================================================
