----------------------------- MODULE FaultTrace -----------------------------
EXTENDS TraceBase, Fault
\* s.f: learning, s.g: everything else.  meta: n variables, prior: the prior edges, ests: number of estimators
\*   learn  est key must err edges   a run of learning; must: "ok", "fail" (a fault is planted that it can not avoid) or "any"
\*   adj    est edges                the adjacency matrix the estimator shows
\*   path   edges rest               the prior edges of the sample path; everything else of it, as text
\*   op     key must err out         any other operation
\*   load   i what must err          importer i imports (an entry of a document; columns of a table)
\*   held   i out                    records, order, variables, structure and identity of importer i
SetOf(q) == {q[i] : i \in DOMAIN q}

FTInit(meta) == {[n |-> meta.n, prior |-> SetOf(meta.prior), f |-> FaultInit(meta.n, meta.ests), g |-> FaultInit(0, 0)]}

Ended(f, e, out) ==
    UNION { IF Reported(e.must, e.err) THEN {} ELSE {"FailureReported"},
            IF Works(e.must, e.err) THEN {} ELSE {"WorksAfterFailures"},
            IF e.err # "" \/ Agrees(f, e.key, out) THEN {} ELSE {"AnswersAsWithoutTheFailure"} }

FTWhy(s, e) ==
    CASE e.a = "learn" -> Ended(s.f, e, SetOf(e.edges))
      [] e.a = "op" -> Ended(s.g, e, e.out)
      [] e.a = "load" -> Ended(s.g, [key |-> "", must |-> e.must, err |-> e.err], "")
      [] e.a = "held" -> IF Agrees(s.g, Holding(s.g, e.i), e.out) THEN {} ELSE {"ImporterAsItWas"}
      [] e.a = "adj" -> IF SetOf(e.edges) = s.f.shown[e.est] THEN {} ELSE {"ShowsTheLastResult"}
      [] e.a = "path" -> UNION { IF SetOf(e.edges) = s.prior /\ Len(e.edges) = Cardinality(s.prior) THEN {} ELSE {"PriorEdgesAsTheyWere"},
                                 IF Agrees(s.g, "path", e.rest) THEN {} ELSE {"DataAsItWas"} }

FTSucc(s, e) ==
    IF FTWhy(s, e) # {} THEN {}
    ELSE CASE e.a = "learn" -> {IF e.err # "" THEN s
                                ELSE [s EXCEPT !.f = Learned(Answered(s.f, e.key, SetOf(e.edges)), e.est, SetOf(e.edges))]}
           [] e.a = "op" -> {IF e.err # "" THEN s ELSE [s EXCEPT !.g = Answered(s.g, e.key, e.out)]}
           [] e.a = "load" -> {IF e.err # "" THEN s ELSE [s EXCEPT !.g = Loaded(s.g, e.i, e.what)]}
           [] e.a = "held" -> {[s EXCEPT !.g = Answered(s.g, Holding(s.g, e.i), e.out)]}
           [] e.a = "adj" -> {s}
           [] e.a = "path" -> {[s EXCEPT !.g = Answered(s.g, "path", e.rest)]}
=============================================================================
