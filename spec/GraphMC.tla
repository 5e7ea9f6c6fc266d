------------------------------ MODULE GraphMC ------------------------------
(***************************************************************************)
(* Every edit history of a small structure and its graph; in simulation,   *)
(* Emit prints the histories that are replayed in the code.                *)
(***************************************************************************)
EXTENDS Graph, TLC, Json

CONSTANTS N, MaxOps, MaxEdges, Record

VARIABLES s, ops
vars == <<s, ops>>

Nodes == 1..N
Init == /\ \E E \in SUBSET {e \in Nodes \X Nodes : e[1] # e[2]} :
              /\ Cardinality(E) <= MaxEdges
              /\ s = [st |-> [nodes |-> [k \in Nodes |-> [l |-> k, i |-> k, c |-> k + 1]], edges |-> E], gr |-> NoGraph]
        /\ ops = <<[op |-> "init", edges |-> s.st.edges, x |-> 0]>>

Edges == {e \in LabelSet(s.st) \X LabelSet(s.st) : e[1] # e[2]}
Do(o) == /\ Len(ops) < MaxOps /\ s' = Apply(s, o) /\ ops' = Append(ops, o)
O(op, E, x) == [op |-> op, edges |-> E, x |-> x]

StructAdd == \E e \in Edges \ s.st.edges : Do(O("sadd", {e}, 0))
StructDel == \E e \in s.st.edges : Do(O("sdel", {e}, 0))
StructClean == s.st.edges # {} /\ Do(O("sclean", {}, 0))
StructNode == Len(s.st.nodes) > 1 /\ \E x \in LabelSet(s.st) : Do(O("snode", {}, x))
GraphNew == s.st.nodes # <<>> /\ Do(O("gnew", {}, 0))
GraphAdd == s.gr.on /\ \E e, f \in Edges : Do(O("gadd", {e, f}, 0))
GraphDel == s.gr.on /\ \E e, f \in Edges : e \in s.gr.edges /\ Do(O("gdel", {e, f}, 0))
GraphNode == s.gr.on /\ Len(s.st.nodes) > 1 /\ \E x \in LabelSet(s.st) : Do(O("gnode", {}, x))
GraphInit == s.gr.on /\ \E x \in LabelSet(s.st) : Do(O("ginit", {}, x))

Next == \/ StructAdd \/ StructDel \/ StructClean \/ StructNode \/ GraphNew \/ GraphAdd \/ GraphDel \/ GraphNode \/ GraphInit
Spec == Init /\ [][Next]_vars
MCView == <<s, Len(ops)>>

NoDangling == \A e \in s.st.edges \union s.gr.edges : e[1] \in LabelSet(s.st) /\ e[2] \in LabelSet(s.st)
LabelsKeepData == \A k \in DOMAIN s.st.nodes : s.st.nodes[k].i = s.st.nodes[k].l /\ s.st.nodes[k].c = s.st.nodes[k].l + 1
ParentsOrdered == \A x \in LabelSet(s.st) : LET p == ParentSeq(s.st, s.gr.edges, x) IN
                    /\ {p[k] : k \in DOMAIN p} = {e[1] : e \in {e \in s.gr.edges : e[2] = x}}
                    /\ \A j, k \in DOMAIN p : j < k => p[j] < p[k]
Removed == \A k \in DOMAIN ops : ops[k].op \in {"snode", "gnode"} => ops[k].x \notin LabelSet(s.st)
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
=============================================================================
