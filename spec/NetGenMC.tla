------------------------------ MODULE NetGenMC ------------------------------
(***************************************************************************)
(* All histories of requests to the generator; matrices are fresh numbers. *)
(* Densities are num/Den.                                                  *)
(***************************************************************************)
EXTENDS NetGen, TLC

CONSTANTS N, MaxCard, Den, Depth

VARIABLES cards, graph, mats, fresh, refused, last, steps
vars == <<cards, graph, mats, fresh, refused, last, steps>>

None == <<"none">>
Init == /\ cards \in [1..N -> 2..MaxCard]
        /\ graph = None /\ mats = None /\ fresh = 0 /\ refused = FALSE /\ last = <<"start">> /\ steps = 0

Free == /\ steps < Depth /\ steps' = steps + 1
        /\ \E num \in 0..Den : /\ graph' \in {<<"g", g>> : g \in Possible(N, num, Den, FALSE)}
                               /\ last' = <<"free", num>>
        /\ refused' = FALSE /\ UNCHANGED <<cards, mats, fresh>>

Fixed == /\ steps < Depth /\ steps' = steps + 1
         /\ \E num \in 0..Den : /\ Whole(N, num, Den)
                                /\ graph' \in {<<"g", g>> : g \in Possible(N, num, Den, TRUE)}
                                /\ last' = <<"fixed", num>>
         /\ refused' = FALSE /\ UNCHANGED <<cards, mats, fresh>>

Refuse == /\ steps < Depth /\ steps' = steps + 1
          /\ \E num \in 0..Den : ~Whole(N, num, Den)
          /\ refused' = TRUE /\ last' = <<"refuse">> /\ UNCHANGED <<cards, graph, mats, fresh>>

Slots(g) == {<<x, c>> : x \in 1..N, c \in UNION {ConfigsOf(cards, g, y) : y \in 1..N}}
SlotsOf(g) == {s \in Slots(g) : s[2] \in ConfigsOf(cards, g, s[1])}

Fill(S, from) == CHOOSE f \in [S -> from + 1..from + Cardinality(S)] : \A a, b \in S : a # b => f[a] # f[b]

RECURSIVE Number(_, _, _)
Number(S, k, f) == IF S = {} THEN f ELSE LET s == CHOOSE s \in S : TRUE IN Number(S \ {s}, k + 1, [f EXCEPT ![s] = k + 1])

Params == /\ steps < Depth /\ steps' = steps + 1
          /\ graph # None
          /\ LET S == SlotsOf(graph[2]) IN
             /\ mats' = <<"m", graph[2], Number(S, fresh, [s \in S |-> 0])>>
             /\ fresh' = fresh + Cardinality(S)
          /\ last' = <<"params">> /\ UNCHANGED <<cards, graph, refused>>

TooEarly == /\ steps < Depth /\ steps' = steps + 1
            /\ graph = None /\ last' = <<"early">>
            /\ UNCHANGED <<cards, graph, mats, fresh, refused>>

Next == Free \/ Fixed \/ Refuse \/ Params \/ TooEarly
Spec == Init /\ [][Next]_vars

NoSelfLoops == graph # None => graph[2] \subseteq Pairs(N)
Exact == last[1] = "fixed" => Cardinality(graph[2]) * Den = last[2] * N * (N - 1)
Extremes == last[1] \in {"free", "fixed"} => /\ last[2] = 0 => graph[2] = {}
                                             /\ last[2] = Den => graph[2] = Pairs(N)
RECURSIVE Prod(_, _)
Prod(cs, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN cs[x] * Prod(cs, S \ {x})
OnePerConfig ==
    mats # None => \A x \in 1..N :
        Cardinality({s \in DOMAIN mats[3] : s[1] = x}) = Prod(cards, {p \in 1..N : <<p, x>> \in mats[2]})
Distinct == mats # None => Cardinality({mats[3][s] : s \in DOMAIN mats[3]}) = Cardinality(DOMAIN mats[3])
Current == last[1] = "params" => mats[2] = graph[2] /\ \A s \in DOMAIN mats[3] : mats[3][s] > fresh - Cardinality(DOMAIN mats[3])
NoneBeforeGraph == graph = None => mats = None
=============================================================================
