------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* A structure (nodes with data column and cardinality, edges) and the     *)
(* graph built on it, under edits.                                         *)
(*   st: [nodes: sequence of [l, i, c], edges: set of pairs of labels]     *)
(*   gr: [on, edges]: whether there is a graph, and its edges (its nodes   *)
(*       are those of the structure)                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LabelSet(st) == {st.nodes[k].l : k \in DOMAIN st.nodes}
NodeOf(st, l) == st.nodes[CHOOSE k \in DOMAIN st.nodes : st.nodes[k].l = l]
Touching(E, x) == {e \in E : e[1] = x \/ e[2] = x}

Without(st, x) == [st EXCEPT !.nodes = SelectSeq(@, LAMBDA v : v.l # x), !.edges = @ \ Touching(@, x)]
NoGraph == [on |-> FALSE, edges |-> {}]

\* the parents of x in the order of the variables
ParentSeq(st, E, x) == SelectSeq([k \in DOMAIN st.nodes |-> st.nodes[k].l], LAMBDA l : <<l, x>> \in E)

\* an edit [op, edges, x] applied to [st, gr]
Apply(s, o) ==
    CASE o.op = "sadd"   -> [s EXCEPT !.st.edges = @ \union o.edges]
      [] o.op = "sdel"   -> [s EXCEPT !.st.edges = @ \ o.edges]
      [] o.op = "sclean" -> [s EXCEPT !.st.edges = {}]
      [] o.op = "snode"  -> [s EXCEPT !.st = Without(@, o.x), !.gr = NoGraph]
      [] o.op = "gnew"   -> [s EXCEPT !.gr = [on |-> TRUE, edges |-> s.st.edges]]
      [] o.op = "gadd"   -> [s EXCEPT !.gr.edges = @ \union o.edges]
      [] o.op = "gdel"   -> [s EXCEPT !.gr.edges = @ \ o.edges]
      [] o.op = "gnode"  -> [s EXCEPT !.st = Without(@, o.x), !.gr.edges = @ \ Touching(@, o.x)]
      [] o.op = "ginit"  -> [s EXCEPT !.gr.edges = @ \union s.st.edges]
=============================================================================
