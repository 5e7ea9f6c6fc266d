----------------------------- MODULE SamplingMC -----------------------------
(***************************************************************************)
(* The sampler as a race of clocks: every variable holds the time of its   *)
(* next change, drawn with the rate of its current matrix; the earliest    *)
(* one fires, then it and its children draw anew.  Times are small         *)
(* integers, draws arbitrary.  All graphs and rate patterns over 0/1       *)
(* matrices of N binary variables.                                         *)
(***************************************************************************)
EXTENDS Sampling, TLC

CONSTANTS N, MaxT, MaxTr, TEnd

VARIABLES parents, rate, x, t, clock, with, rows, over
vars == <<parents, rate, x, t, clock, with, rows, over>>

Nodes == 1..N
Never == MaxT + 1
NoClock == -1
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Ordered(S \ {m})
RECURSIVE Confs(_)
Confs(k) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o c : v \in {0, 1}, c \in Confs(k - 1)}

\* what the law of j depends on now: its state and the states of its parents
Law(j) == <<x[j], [i \in 1..Len(parents[j]) |-> x[parents[j][i]]]>>
\* rate: whether a variable may leave a state at all (rates only matter as zero or not here)
CanLeave(j) == rate[j][x[j] + 1]

Init == /\ parents \in [Nodes -> {Ordered(S) : S \in SUBSET Nodes}]
        /\ \A j \in Nodes : \A i \in DOMAIN parents[j] : parents[j][i] # j
        /\ rate \in [Nodes -> [1..2 -> BOOLEAN]]
        /\ x = [j \in Nodes |-> 0] /\ t = 0
        /\ clock = [j \in Nodes |-> NoClock] /\ with = [j \in Nodes |-> <<>>]
        /\ rows = <<<<0, x>>>> /\ over = FALSE

Draw == /\ ~over
        /\ \E j \in Nodes :
             /\ clock[j] = NoClock /\ \A k \in 1..j - 1 : clock[k] # NoClock
             /\ IF CanLeave(j) THEN \E d \in 0..2 : clock' = [clock EXCEPT ![j] = IF t + d > MaxT THEN Never ELSE t + d]
                ELSE clock' = [clock EXCEPT ![j] = Never]
             /\ with' = [with EXCEPT ![j] = Law(j)]
        /\ UNCHANGED <<parents, rate, x, t, rows, over>>

Ready == ~over /\ \A j \in Nodes : clock[j] # NoClock
First == CHOOSE j \in Nodes : \A k \in Nodes : clock[j] <= clock[k] /\ (clock[j] = clock[k] => j <= k)
Bound == Len(rows) - 1 = MaxTr \/ clock[First] >= TEnd

Fire == /\ Ready /\ ~Bound
        /\ LET j == First IN
           /\ x' = [x EXCEPT ![j] = 1 - @]
           /\ t' = clock[j]
           /\ clock' = [k \in Nodes |-> IF k = j \/ \E i \in DOMAIN parents[k] : parents[k][i] = j THEN NoClock ELSE clock[k]]
           /\ rows' = Append(rows, <<t', x'>>)
        /\ UNCHANGED <<parents, rate, with, over>>

Close == /\ Ready /\ Bound
         /\ rows' = [rows EXCEPT ![Len(rows)][2] = [j \in Nodes |-> -1]]
         /\ over' = TRUE /\ UNCHANGED <<parents, rate, x, t, clock, with>>

Next == Draw \/ Fire \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every running clock was drawn with the law in force
CurrentLaws == ~over => \A j \in Nodes : clock[j] # NoClock => with[j] = Law(j)
TimesGrow == \A k \in 1..Len(rows) - 1 : rows[k][1] <= rows[k + 1][1]
OneChange == \A k \in 1..Len(rows) - 1 : rows[k + 1][2] # [j \in Nodes |-> -1] =>
                 Cardinality({j \in Nodes : rows[k][2][j] # rows[k + 1][2][j]}) = 1
Bounded == Len(rows) - 1 <= MaxTr /\ rows[Len(rows)][1] <= TEnd
ClosedOnce == over <=> rows[Len(rows)][2] = [j \in Nodes |-> -1]
Ends == <>over
=============================================================================
