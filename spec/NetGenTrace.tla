---------------------------- MODULE NetGenTrace ----------------------------
EXTENDS TraceBase, NetGen
\* meta: n, cards.
\*   graph   num den fixed err nodes edges           a graph was asked for
\*   frames  vars edges                              the exported variables (name, cardinality) and edges
\*   early   none                                    parameters asked for before there is a graph
\*   cims    err lo hi nodes                         parameters: per variable a list of [comb, m] and what selecting gives
\*   stats   runs num den fixed count both           how often each pair (each two pairs) was an edge in runs graphs
\*   total  runs num den count                       how many edges there were among runs possible ones, in many graphs
SetOf(q) == {q[i] : i \in DOMAIN q}

NGInit(meta) == {[n |-> meta.n, cards |-> meta.cards, g |-> {}, has |-> FALSE]}

GraphWhy(s, e) ==
    LET E == SetOf(e.edges) IN
    IF e.fixed /\ ~Whole(s.n, e.num, e.den)
    THEN IF e.err = "" THEN {"ImpossibleDensityRefused"} ELSE {}
    ELSE IF e.err # "" THEN {"PossibleDensityAccepted"}
    ELSE UNION { IF e.nodes = [i \in 1..s.n |-> i] THEN {} ELSE {"AllVariablesPresent"},
                 IF E \subseteq Pairs(s.n) THEN {} ELSE {"NoSelfLoops"},
                 IF Cardinality(E) = Len(e.edges) THEN {} ELSE {"EdgesOnce"},
                 IF e.fixed THEN IF Cardinality(E) = Wanted(s.n, e.num, e.den) THEN {} ELSE {"ExactNumberOfEdges"}
                 ELSE IF (e.num = 0 => E = {}) /\ (e.num = e.den => E = Pairs(s.n)) THEN {} ELSE {"CertainEdges"} }

FramesWhy(s, e) ==
    UNION { IF e.vars = [i \in 1..s.n |-> <<i, s.cards[i]>>] THEN {} ELSE {"VariablesExported"},
            IF SetOf(e.edges) = s.g /\ Len(e.edges) = Cardinality(s.g) THEN {} ELSE {"CurrentEdgesExported"} }

NodeWhy(s, e, x) ==
    LET node == e.nodes[x]
        C == ConfigsOf(s.cards, s.g, x) IN
    UNION { IF SetOf([i \in DOMAIN node |-> node[i].comb]) = C /\ Len(node) = Cardinality(C) THEN {} ELSE {"OneMatrixPerConfiguration"},
            IF \A i \in DOMAIN node : ValidMatrix(node[i].m, s.cards[x], e.lo, e.hi) THEN {} ELSE {"ValidIntensityMatrix"},
            IF \A i \in DOMAIN node : node[i].sel = node[i].m THEN {} ELSE {"ConfigurationSelectsItsMatrix"},
            \* drawn independently: coincidences have odds below 1e-8 a pair
            IF e.hi - e.lo >= 10000 /\ Cardinality({node[i].m : i \in DOMAIN node}) < Len(node) - (IF Len(node) > 8 THEN 1 ELSE 0)
               THEN {"MatricesDrawnIndependently"} ELSE {} }

CimsWhy(s, e) ==
    IF e.err # "" THEN {"ParametersGenerated"}
    ELSE IF Len(e.nodes) # s.n THEN {"ParametersForEveryVariable"}
    ELSE UNION {UNION {NodeWhy(s, e, x) : x \in 1..s.n},
                IF e.hi - e.lo >= 10000 /\ \E x, y \in 1..s.n : x # y /\ e.nodes[x] # <<>> /\ e.nodes[y] # <<>>
                                              /\ e.nodes[x][1].m = e.nodes[y][1].m
                   THEN {"MatricesDrawnIndependently"} ELSE {},
                IF e.hi - e.lo >= 10000 /\ e.before # <<>> /\ e.before[1] = e.nodes[1][1].m THEN {"GeneratedAgain"} ELSE {}}

\* |count - runs*num/den| within 6.7 standard deviations of a binomial, and a little more
Near(runs, num, den, count) ==
    LET d == Abs(count * den - runs * num) - 5 * den IN
    d <= 0 \/ (num > 0 /\ num < den /\ d <= 46000 /\ (d * d) \div 45 <= runs * num * (den - num))
\* the same for tens of thousands of trials (runs: a multiple of 1000), coarser
NearMany(runs, num, den, count) ==
    LET d == (Abs(count * den - runs * num) - 5 * den) \div 100 IN
    d <= 0 \/ (d <= 46000 /\ (d * d) \div 45 <= ((runs \div 1000) * num * (den - num)) \div 10)
StatsWhy(s, e) ==
    LET N == s.n * (s.n - 1)
        k == Wanted(s.n, e.num, e.den)
        bn == IF e.fixed THEN k * (k - 1) ELSE e.num * e.num
        bd == IF e.fixed THEN N * (N - 1) ELSE e.den * e.den IN
    UNION { IF \A i \in DOMAIN e.count : Near(e.runs, e.num, e.den, e.count[i]) THEN {} ELSE {"EveryPairWithTheRequestedProbability"},
            IF bd = 0 \/ \A i \in DOMAIN e.both : Near(e.runs, bn, bd, e.both[i]) THEN {} ELSE {"PairsIndependent"} }

NGWhy(s, e) ==
    CASE e.a = "graph" -> GraphWhy(s, e)
      [] e.a = "frames" -> FramesWhy(s, e)
      [] e.a = "early" -> IF e.none THEN {} ELSE {"NoParametersBeforeGraph"}
      [] e.a = "cims" -> CimsWhy(s, e)
      [] e.a = "stats" -> StatsWhy(s, e)
      [] e.a = "total" -> IF NearMany(e.runs, e.num, e.den, e.count) THEN {} ELSE {"EveryPairWithTheRequestedProbability"}

NGSucc(s, e) ==
    IF NGWhy(s, e) # {} THEN {}
    ELSE IF e.a = "graph" /\ e.err = "" THEN {[s EXCEPT !.g = SetOf(e.edges), !.has = TRUE]} ELSE {s}
=============================================================================
