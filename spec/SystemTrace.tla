---------------------------- MODULE SystemTrace ----------------------------
EXTENDS TraceBase, System
\* meta: un, ud and nets: sequence of [n, cards, parents, q] (q: per variable a list of [comb, m], numbers in 1/10000).
\*   network  k net                            what the objects of network k hold now
\*   sample   k maxtr tend err rows            a trajectory of network k
\*   rows     k rows                           what the table of trajectory k holds now
\*   write    f parts err                      document f now holds the given trajectories of the given networks
\*   document f docs                           what document f holds now: per part [vars, edges, samples]
\*   load     err f i | k which prior          a sample path of part i of document f, or of tables in memory
\*   path     k err recs vars edges            what sample path k holds now
\*   estimate k form node parents err T M C    statistics and intensities (form "prior": given the prior parents)
\*   learn    k how known err edges            learned structure (how: which algorithm and options, a number)
\*   edit     k add edge err                   an edge was added to or removed from the structure of sample path k
\*   spurious k err edges                      learned edges that are not prior edges

NetOf(m) == [n |-> m.n, cards |-> m.cards, parents |-> m.parents,
             q |-> [j \in 1..m.n |-> [u \in {m.q[j][i].comb : i \in DOMAIN m.q[j]} |->
                       (CHOOSE c \in {m.q[j][i] : i \in DOMAIN m.q[j]} : c.comb = u).m]]]

\* `answers' remembers what each algorithm answered for which data: the same question has the same answer
SYInit(meta) == {[Fresh([k \in DOMAIN meta.nets |-> NetOf(meta.nets[k])]) EXCEPT !.nets = @] @@ [un |-> meta.un, ud |-> meta.ud, answers |-> {}]}

Set(q) == {q[i] : i \in DOMAIN q}
Vars(net) == [j \in 1..net.n |-> <<j, net.cards[j]>>]
SameEdges(es, E) == Set(es) = E /\ Len(es) = Cardinality(E)

PartWhy(s, part, d) ==
    UNION { IF d.vars = Vars(s.nets[part.net]) /\ SameEdges(d.edges, EdgesOf(s.nets[part.net])) THEN {} ELSE {"DocumentHoldsTheNetwork"},
            IF d.samples = [i \in DOMAIN part.which |-> s.trajs[part.which[i]].rows] THEN {} ELSE {"DocumentHoldsTheTrajectories"} }

PathWhy(s, p, e) ==
    IF e.err # "" THEN {"PathStands"} ELSE
    UNION { IF e.recs = RecsOf(s, p) THEN {} ELSE {"RecordsArriveUnchanged"},
            IF e.vars = Vars(s.nets[p.net]) THEN {} ELSE {"VariablesArriveUnchanged"},
            IF SameEdges(e.edges, p.prior) THEN {} ELSE {"PriorArrivesUnchanged"} }

EstimateWhy(s, p, e) ==
    LET ps == IF e.form = "prior" THEN SortedSet({a \in 1..s.nets[p.net].n : <<a, e.node>> \in p.prior}) ELSE e.parents
        st == StatsFor(s, p, e.node, ps) IN
    IF e.err # "" THEN {"Estimated"} ELSE
    UNION { IF e.T = st.T THEN {} ELSE {"TimesOfThePath"},
            IF e.M = st.M THEN {} ELSE {"TransitionsOfThePath"},
            IF Len(e.C) = Len(st.T) /\ \A u \in DOMAIN st.T : CimOk(e.C[u], st.T[u], st.M[u], s.un, s.ud) THEN {} ELSE {"IntensitiesOfThePath"} }

Question(s, p, e) == [recs |-> RecsOf(s, p), net |-> p.net, known |-> Set(e.known), how |-> e.how]
LearnWhy(s, p, e) ==
    LET E == Set(e.edges)  n == s.nets[p.net].n IN
    IF e.err # "" THEN {"Learned"} ELSE
    UNION { IF E \subseteq {<<a, b>> \in (1..n) \X (1..n) : a # b} /\ Cardinality(E) = Len(e.edges) THEN {} ELSE {"EdgesOfTheNetwork"},
            IF Set(e.known) \subseteq E THEN {} ELSE {"KnownEdgesKept"},
            IF \A a \in s.answers : a.q = Question(s, p, e) => a.e = E THEN {} ELSE {"SameQuestionSameAnswer"} }

DocName(e) == e.f
PathFor(s, e) == IF e.f # "" THEN FromDocument(s, e.f, e.i) ELSE FromMemory(s, e.k, e.which, IF e.prior THEN EdgesOf(s.nets[e.k]) ELSE {})

SYWhy(s, e) ==
    CASE e.a = "network" -> IF e.err = "" /\ NetOf(e.net) = s.nets[e.k] THEN {} ELSE {"NetworkLeftAlone"}
      [] e.a = "sample" -> IF e.err # "" THEN {"Sampled"}
                           ELSE (IF ValidRows(s.nets[e.k], e.rows) THEN {} ELSE {"ValidTrajectory"}) \union (IF Within(e.rows, e.maxtr, e.tend) THEN {} ELSE {"WithinBounds"})
      [] e.a = "rows" -> IF e.rows = s.trajs[e.k].rows THEN {} ELSE {"TrajectoryLeftAlone"}
      [] e.a = "write" -> IF e.err = "" THEN {} ELSE {"Written"}
      [] e.a = "document" -> IF Len(e.docs) # Len(s.docs[e.f]) THEN {"DocumentHoldsTheNetwork"}
                             ELSE UNION {PartWhy(s, s.docs[e.f][i], e.docs[i]) : i \in DOMAIN e.docs}
      [] e.a = "load" -> IF e.err = "" THEN {} ELSE {"Loaded"}
      [] e.a = "path" -> PathWhy(s, s.paths[e.k], e)
      [] e.a = "estimate" -> EstimateWhy(s, s.paths[e.k], e)
      [] e.a = "learn" -> LearnWhy(s, s.paths[e.k], e)
      [] e.a = "edit" -> IF e.err = "" THEN {} ELSE {"Edited"}
      [] e.a = "spurious" -> IF e.err = "" /\ SameEdges(e.edges, Spurious(s.learned[e.k], s.paths[e.k].prior)) THEN {} ELSE {"SpuriousOfThisPath"}

SYSucc(s, e) ==
    IF SYWhy(s, e) # {} THEN {} ELSE
    CASE e.a = "sample" -> {Sampled(s, e.k, e.rows)}
      [] e.a = "write" -> {Written(s, e.f, e.parts)}
      [] e.a = "load" -> {WithPath(s, PathFor(s, e))}
      [] e.a = "learn" -> {[Learned(s, e.k, Set(e.edges)) EXCEPT !.answers = @ \union {[q |-> Question(s, s.paths[e.k], e), e |-> Set(e.edges)]}]}
      [] e.a = "edit" -> {Edited(s, e.k, e.add, e.edge)}
      [] OTHER -> {s}
=============================================================================
