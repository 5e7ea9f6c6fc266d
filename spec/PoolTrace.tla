----------------------------- MODULE PoolTrace -----------------------------
EXTENDS TraceBase, Pool
\* meta: n.  Runs of one group (0: none) must have the same outcome; want: the outcome when the scripted answers fix it.
SetOf(q) == {q[i] : i \in DOMAIN q}

PLInit(meta) == {[n |-> meta.n, ref |-> <<>>]}

Prev(s, g) == {s.ref[k].edges : k \in {k \in DOMAIN s.ref : s.ref[k].g = g}}

LearnWhy(s, e) ==
    IF e.err # "" THEN {"LearningEnds"} ELSE
    LET E == SetOf(e.edges) IN
    UNION { IF Cardinality(E) = Len(e.edges) /\ E \subseteq (1..s.n) \X (1..s.n) /\ \A p \in E : p[1] # p[2]
               THEN {} ELSE {"EdgesOfTheNetwork"},
            IF SetOf(e.known) \subseteq E THEN {} ELSE {"KnownEdgesKept"},
            IF e.fixed /\ E # SetOf(e.want) THEN {"EveryNodeContributesItsParents"} ELSE {},
            IF e.group = 0 \/ \A F \in Prev(s, e.group) : F = E THEN {} ELSE {"SameResultInEveryRun"} }

PLWhy(s, e) ==
    CASE e.a = "learn" -> LearnWhy(s, e)
      [] e.a = "inputs" -> UNION { IF e.same THEN {} ELSE {"SamplePathUntouched"},
                                   IF e.knownsame THEN {} ELSE {"KnownEdgesArgumentUntouched"} }

PLSucc(s, e) ==
    IF PLWhy(s, e) # {} THEN {}
    ELSE IF e.a = "learn" THEN {[s EXCEPT !.ref = Append(@, [g |-> e.group, edges |-> SetOf(e.edges)])]} ELSE {s}
=============================================================================
