----------------------------- MODULE GraphTrace -----------------------------
EXTENDS TraceBase, Graph
\* meta: nodes = sequence of [l, i, c], edges, total
SetOf(q) == {q[i] : i \in DOMAIN q}

GRInit(meta) == {[st |-> [nodes |-> meta.nodes, edges |-> SetOf(meta.edges)], gr |-> NoGraph, total |-> meta.total, gone |-> FALSE]}

Seq1(f, st) == [k \in DOMAIN st.nodes |-> CASE f = "l" -> st.nodes[k].l [] f = "i" -> st.nodes[k].i [] f = "c" -> st.nodes[k].c]
Once(q, E) == SetOf(q) = E /\ Len(q) = Cardinality(E)

StructWhy(t, e) ==
    UNION { IF e.S.labels = Seq1("l", t.st) THEN {} ELSE {"ExactlySurvivingNodes"},
            IF e.S.indexes = Seq1("i", t.st) /\ e.S.values = Seq1("c", t.st) THEN {} ELSE {"NodesKeepColumnAndCardinality"},
            IF Once(e.S.edges, t.st.edges) THEN {} ELSE {"ExactlySurvivingEdges"},
            IF e.S.total = t.total THEN {} ELSE {"TotalUnchanged"},
            IF \A k \in DOMAIN e.S.ask : LET v == NodeOf(t.st, e.S.ask[k].l) IN
                    e.S.ask[k].i = v.i /\ e.S.ask[k].c = v.c /\ t.st.nodes[e.S.ask[k].pos + 1].l = v.l
            THEN {} ELSE {"QueriesDescribeContent"},
            IF \A k \in DOMAIN e.S.member : e.S.member[k][2] = (e.S.member[k][1] \in t.st.edges) THEN {} ELSE {"EdgeMembership"},
            IF ~e.S.alien /\ \A k \in DOMAIN e.S.cmp :
                    LET o == e.S.cmp[k]  same == o.nodes = t.st.nodes /\ SetOf(o.edges) = t.st.edges IN o.eq = same /\ o.back = same
            THEN {} ELSE {"EqualExactlyWhenSameContent"},
            IF ~t.gone /\ e.S.ids # Seq1("l", t.st) THEN {"NodeIds"} ELSE {} }

GraphWhy(t, e) ==
    UNION { IF e.G.nodes = Seq1("l", t.st) /\ e.G.indexes = Seq1("i", t.st) /\ e.G.values = Seq1("c", t.st)
            THEN {} ELSE {"ExactlySurvivingNodes"},
            IF Once(e.G.edges, t.gr.edges) THEN {} ELSE {"ExactlySurvivingEdges"},
            IF \A k \in DOMAIN e.G.ask : LET a == e.G.ask[k]  v == NodeOf(t.st, a.l)  ps == ParentSeq(t.st, t.gr.edges, a.l) IN
                    /\ a.i = v.i /\ a.c = v.c
                    /\ Once(a.parents, SetOf(ps))
                    /\ a.ordered = ps
                    /\ a.pi = [j \in DOMAIN ps |-> NodeOf(t.st, ps[j]).i]
                    /\ a.pc = [j \in DOMAIN ps |-> NodeOf(t.st, ps[j]).c]
            THEN {} ELSE {"QueriesDescribeContent"},
            IF \A k \in DOMAIN e.G.member : e.G.member[k][2] = (e.G.member[k][1] \in t.gr.edges) THEN {} ELSE {"EdgeMembership"},
            IF "pos" \in DOMAIN e.G => e.G.pos = [k \in DOMAIN t.st.nodes |-> k - 1] THEN {} ELSE {"QueriesDescribeContent"},
            IF e.op # "ginit" THEN {}
            ELSE LET ps == ParentSeq(t.st, t.gr.edges, e.x)  i == NodeOf(t.st, e.x).i
                     cols == [j \in DOMAIN ps |-> NodeOf(t.st, ps[j]).i]
                 IN IF e.G.time = <<i>> \o cols /\ e.G.trans = <<i + t.total, i>> \o cols THEN {} ELSE {"ColumnsOfNodeAndParents"} }

GRNext(t, e) ==
    LET o == [op |-> e.op, edges |-> SetOf(e.edges), x |-> e.x]
    IN [Apply(t, o) EXCEPT !.gone = @ \/ e.op \in {"snode", "gnode"}]

GRWhy(t, e) ==
    IF e.err # "" THEN {"EditAccepted"}
    ELSE IF ~e.seen THEN {}
    ELSE LET u == GRNext(t, e) IN StructWhy(u, e) \union (IF u.gr.on THEN GraphWhy(u, e) ELSE {})
GRSucc(t, e) == IF GRWhy(t, e) = {} THEN {GRNext(t, e)} ELSE {}
=============================================================================
