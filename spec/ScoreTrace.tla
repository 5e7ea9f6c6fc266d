----------------------------- MODULE ScoreTrace -----------------------------
EXTENDS TraceBase, Importing, Stats, FamScore
\* meta: data = [<data set>] (or none), hyper = sequence of tables.  State: the edges of every graph.

SCInit(meta) ==
    LET d == meta.data[1] IN
    {[recs |-> Records(d, d.cols), n |-> Len(d.cols), labels |-> d.cols,
      cards |-> [j \in 1..Len(d.vars) |-> d.vars[j][2]], hyper |-> meta.hyper, g |-> [k \in 1..meta.graphs |-> {}]]}

No(s, l) == CHOOSE j \in 1..s.n : s.labels[j] = l
ParentsIn(s, k, l) == SortedSet({No(s, e[1]) : e \in {e \in s.g[k] : e[2] = l}})

SCWhy(s, e) ==
    IF e.a # "edit" /\ e.err # "" THEN {"ScoreComputed"} ELSE
    CASE e.a = "edit" -> {}
      [] e.a = "score" ->
           LET x == No(s, e.node)  st == StatsOf(s.recs, s.n, s.cards, x, ParentsIn(s, e.g, e.node))
           IN IF ScoreMatches(s.hyper[e.h], st, e.val) THEN {} ELSE {"ScoreIsFamilyScore"}
      [] e.a = "direct" -> IF ScoreMatches(s.hyper[e.h], [T |-> e.T, M |-> e.M], e.val) THEN {} ELSE {"ScoreIsFamilyScore"}

SCSucc(s, e) ==
    IF SCWhy(s, e) # {} THEN {}
    ELSE IF e.a = "edit"
         THEN {[s EXCEPT !.g[e.g] = IF e.op = "add" THEN @ \union RangeOf(e.edges) ELSE @ \ RangeOf(e.edges)]}
         ELSE {s}
=============================================================================
