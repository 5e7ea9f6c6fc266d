--------------------------- MODULE RecoveryTrace ---------------------------
EXTENDS TraceBase, Recovery
\* meta: nets: sequence of [n, cards, parents, q] (q: per variable a list of [comb, m], numbers in 1/100).
\*   data   k err trajs seen                 trajectories of network k; seen: per variable a list of [comb, out]
\*   learn  k alg known err edges            structure learned from them
\*   fit    k err fit                        intensities estimated for the network's own structure: per variable a
\*                                           list of [comb, c, m] (c in 1/100, m: transitions counted)
\*   end                                     all networks of the trace were learned

QOf(m) == [x \in 1..m.n |-> [u \in {m.q[x][i].comb : i \in DOMAIN m.q[x]} |-> (CHOOSE c \in {m.q[x][i] : i \in DOMAIN m.q[x]} : c.comb = u).m]]
NetOf(m) == [n |-> m.n, cards |-> m.cards, parents |-> m.parents, q |-> QOf(m)]
SeenOf(net, e) == [x \in 1..net.n |-> [u \in {e.seen[x][i].comb : i \in DOMAIN e.seen[x]} |-> (CHOOSE c \in {e.seen[x][i] : i \in DOMAIN e.seen[x]} : c.comb = u).out]]

RInit(meta) ==
    LET nets == [k \in DOMAIN meta.nets |-> NetOf(meta.nets[k])] IN
    IF \A k \in DOMAIN nets : Strong(nets[k]) THEN {[nets |-> nets, extra |-> 0, absent |-> 0]} ELSE {}

Set(q) == {q[i] : i \in DOMAIN q}
LearnWhy(s, net, e) ==
    LET E == Set(e.edges) IN
    IF e.err # "" THEN {"Learned"} ELSE
    UNION { IF Cardinality(E) = Len(e.edges) /\ E \subseteq Edges(net) \union Absent(net) THEN {} ELSE {"EdgesOfTheNetwork"},
            IF Edges(net) \subseteq E THEN {} ELSE {"EveryEdgeFound"},
            IF e.alg = "ctpc" => E \subseteq Edges(net) THEN {} ELSE {"NothingElseFound"} }

FitOk(q, f) ==
    /\ {f[i].comb : i \in DOMAIN f} = DOMAIN q /\ Len(f) = Cardinality(DOMAIN q)
    /\ \A i \in DOMAIN f : LET a == q[f[i].comb]  c == f[i].c  m == f[i].m IN
          \A x \in DOMAIN a : /\ Abs(Abs(c[x][x]) - Rate(a, x)) * Root(m[x][x]) <= 7 * Rate(a, x) + 14
                              /\ \A y \in DOMAIN a : y # x /\ m[x][y] >= 20 => Near(c[x][y], a[x][y], m[x][y])

RWhy(s, e) ==
    CASE e.a = "data" -> IF e.err # "" THEN {"Sampled"} ELSE IF ShowsAll(SeenOf(s.nets[e.k], e)) THEN {} ELSE {"SampleShowsEveryConfiguration"}
      [] e.a = "learn" -> LearnWhy(s, s.nets[e.k], e)
      [] e.a = "fit" -> IF e.err # "" THEN {"Estimated"}
                        ELSE IF \A x \in 1..s.nets[e.k].n : FitOk(s.nets[e.k].q[x], e.fit[x]) THEN {} ELSE {"IntensitiesComeBack"}
      [] OTHER -> IF 30 * s.extra <= s.absent + 60 THEN {} ELSE {"HardlyAnythingElseFound"}

RSucc(s, e) ==
    IF RWhy(s, e) # {} THEN {}
    ELSE IF e.a = "learn" /\ e.alg # "ctpc"
    THEN LET net == s.nets[e.k]  E == Set(e.edges) IN
         {[s EXCEPT !.extra = @ + Cardinality(E \ Edges(net)), !.absent = @ + Cardinality(Absent(net))]}
    ELSE {s}
=============================================================================
