--------------------------- MODULE ImportingTrace ---------------------------
EXTENDS TraceBase, Importing
\* state: [imp : importer id -> importer, data, path : importer id -> the sample path built on it]

ITInit(meta) == {[data |-> meta.data, imp |-> <<>>, path |-> <<>>]}

Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

Ord(s, e) == OrderFor(s.data, s.imp[e.k].ds[e.i], e.header)
Dat(s, e) == s.data[s.imp[e.k].ds[e.i]]

Listed(d, o) == IF InShort(d) THEN Runs(d, o) ELSE Records(d, o)
\* the states before the elapsed time and what follows
NowOf(r, n) == [i \in 1..Len(r) |-> SubSeq(r[i], 2, n + 1)]
SizeOf(d, r) == IF InShort(d) THEN FoldLeft(LAMBDA a, x : a + Len(x[1]) * x[2], 0, r) ELSE Len(r)

ImportWhy(s, e) ==
    IF e.err # "" THEN {"ImportSucceeds"} ELSE
    LET d == Dat(s, e)  o == Ord(s, e)  r == Listed(d, o) IN
    UNION { IF e.cols = o THEN {} ELSE {"VariableOrder"},
            IF e.named THEN {} ELSE {"ColumnsNamed"},
            IF e.recs = r THEN {} ELSE {"RecordsExact"},
            IF e.recs2 = r THEN {} ELSE {"SampleArraysExact"},
            IF e.vars = d.vars THEN {} ELSE {"VariablesExact"},
            IF e.edges = d.edges THEN {} ELSE {"PriorStructureExact"},
            IF e.same THEN {} ELSE {"HeaderUntouched"} }

PathWhy(s, e) ==
    LET im == s.imp[e.k] IN
    IF im.st = "loaded" /\ Refused(im, s.data) /\ e.err = "" THEN {"InconsistentDataRefused"}
    ELSE IF ~Refused(im, s.data) /\ e.err # "" THEN {"ConsistentDataAccepted"}
    ELSE {}

MirrorWhy(s, e) ==
    LET im == s.imp[e.k]  d == s.data[im.d]  r == Listed(d, im.order)  n == Len(d.vars) IN
    UNION { IF e.recs = r THEN {} ELSE {"TrajectoriesExact"},
            IF e.now = (IF InShort(d) THEN [i \in 1..Len(r) |-> <<NowOf(r[i][1], n), r[i][2]>>] ELSE NowOf(r, n)) THEN {} ELSE {"StatesExact"},
            IF e.size = SizeOf(d, r) THEN {} ELSE {"SizeExact"},
            IF e.labels = [j \in 1..n |-> d.vars[j][1]] THEN {} ELSE {"LabelsExact"},
            IF e.cards = [j \in 1..n |-> d.vars[j][2]] THEN {} ELSE {"CardinalitiesExact"},
            IF e.indexes = [j \in 1..n |-> j - 1] THEN {} ELSE {"DataColumnsExact"},
            IF e.edges = d.edges THEN {} ELSE {"PriorEdgesExact"},
            IF e.total = n THEN {} ELSE {"TotalExact"},
            IF e.prior = (d.edges # <<>>) THEN {} ELSE {"PriorFlag"},
            IF e.bylabel = [j \in 1..n |-> <<d.vars[j][1], d.vars[j][2], j - 1, j - 1, d.vars[j][1]>>] THEN {}
            ELSE {"LookupsExact"} }

BuildWhy(s, e) ==
    LET im == s.imp[e.k] IN
    IF Refused(im, s.data) \/ Mismatch(im, s.data)
    THEN IF e.err = "" THEN {"InconsistentDataRefused"} ELSE {}
    ELSE IF e.err # "" THEN {"ConsistentDataAccepted"} ELSE MirrorWhy(s, e)

\* edits of the edges of the structure of a sample path (multiset semantics: a list of edges)
EditWhy(s, e) ==
    LET es == s.path[e.k]  here == e.edge \in RangeOf(es) IN
    UNION { IF e.op = "has" /\ (e.err # "" \/ e.res # here) THEN {"EdgeLookup"} ELSE {},
            IF e.op = "add" /\ (e.err # "" \/ e.edges # Append(es, e.edge)) THEN {"EdgeAdded"} ELSE {},
            IF e.op = "remove" /\ here /\ (e.err # "" \/ RangeOf(e.edges) \union {e.edge} # RangeOf(es)
                                           \/ Len(e.edges) # Len(es) - 1) THEN {"EdgeRemoved"} ELSE {},
            IF e.op = "has" /\ e.edges # es THEN {"LookupIsReadOnly"} ELSE {} }

ITWhy(s, e) ==
    CASE e.a = "new" -> IF e.err = "" THEN {} ELSE {"ImporterCreated"}
      [] e.a = "import" -> ImportWhy(s, e)
      [] e.a = "path" -> PathWhy(s, e)
      [] e.a = "build" -> BuildWhy(s, e)
      [] e.a = "edit" -> EditWhy(s, e)
      [] e.a = "inputs" -> IF e.same THEN {} ELSE {"InputsUntouched"}

ITSucc(s, e) ==
    IF ITWhy(s, e) # {} THEN {}
    ELSE CASE e.a = "new" -> {[s EXCEPT !.imp = Put(s.imp, e.k, NewImporter(e.kind, e.ds))]}
           [] e.a = "import" -> {[s EXCEPT !.imp[e.k] = Loaded(@, s.data, e.i, e.header)]}
           [] e.a = "path" -> {s}
           [] e.a = "build" -> IF e.err # "" THEN {s}
                               ELSE {[s EXCEPT !.imp[e.k].st = "consumed", !.path = Put(s.path, e.k, e.edges)]}
           [] e.a = "edit" -> IF e.op = "has" THEN {s} ELSE {[s EXCEPT !.path[e.k] = e.edges]}
           [] e.a = "inputs" -> {s}
=============================================================================
