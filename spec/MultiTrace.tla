----------------------------- MODULE MultiTrace -----------------------------
EXTENDS TraceBase, MultiSample
\* multi: must ("fail": a worker fails, "any": it may), tends, maxtrs (<<-1>>: not given), err, none, rows, ends, ids (0: too short to compare), gap (-1: unbounded)
\* fair: the first jumps of paired trajectories: how often early/late agreed

MTInit(meta) == {[seen |-> {}]}

Ids(e) == {e.ids[i] : i \in {i \in DOMAIN e.ids : e.ids[i] # 0}}

MultiWhy(s, e) ==
    IF e.must = "fail" THEN IF e.err # "" THEN {} ELSE {"FailureReported"} ELSE
    IF e.must = "any" /\ e.err # "" THEN {} ELSE
    IF e.err # "" THEN {"SamplingEnds"} ELSE
    UNION { IF e.tends = NoList /\ e.maxtrs = NoList
            THEN IF e.none THEN {} ELSE {"NothingWithoutBounds"}
            ELSE IF e.none THEN {"OnePerBound"}
            ELSE IF e.tends # NoList THEN IF MatchEnds(e.ends, e.tends, e.gap) THEN {} ELSE {"OnePerBound"}
            ELSE IF MatchRows(e.rows, e.maxtrs) THEN {} ELSE {"OnePerBound"},
            IF Ids(e) \cap s.seen = {} /\ \A i, j \in DOMAIN e.ids : i # j /\ e.ids[i] # 0 => e.ids[i] # e.ids[j]
               THEN {} ELSE {"TrajectoriesIndependent"} }

Abs(x) == IF x < 0 THEN -x ELSE x
\* pairs of consecutive trajectories, each above or below the median waiting time: four equally likely cases
FairWhy(e) ==
    IF \A i \in 1..4 : LET d == Abs(4 * e.cases[i] - e.n) - 20 IN d <= 0 \/ d * d <= 45 * 3 * e.n
    THEN {} ELSE {"TrajectoriesIndependent"}

MTWhy(s, e) == IF e.a = "multi" THEN MultiWhy(s, e) ELSE IF e.a = "fair" THEN FairWhy(e) ELSE {}
MTSucc(s, e) ==
    IF MTWhy(s, e) # {} THEN {} ELSE IF e.a = "multi" THEN {[s EXCEPT !.seen = @ \union Ids(e)]} ELSE {s}
=============================================================================
