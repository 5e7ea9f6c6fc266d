------------------------------- MODULE PoolMC -------------------------------
(***************************************************************************)
(* All schedules of the tasks of two learning runs over the workers.  A    *)
(* test that lacks data protects an edge into the node of the task         *)
(* (scratch state of the estimator it runs in); the design restores it at  *)
(* the end of a sequential run, so that the next run starts afresh.        *)
(***************************************************************************)
EXTENDS Pool, TLC

CONSTANTS N, MaxWorkers

VARIABLES res, mode, todo, busy, got, scratch, run, outcome
vars == <<res, mode, todo, busy, got, scratch, run, outcome>>

Tasks == 1..N
Free == 0
Modes == 0..MaxWorkers       \* 0: sequential
Slots(m) == IF m = 0 THEN {1} ELSE 1..m

Begin(m) == /\ mode' = m /\ todo' = [k \in Tasks |-> k] /\ busy' = [w \in Slots(m) |-> Free]
            /\ got' = [t \in {} |-> {}]

Init == /\ res \in [Tasks -> SUBSET Tasks]
        /\ \A t \in Tasks : t \notin res[t]
        /\ mode \in Modes /\ todo = [k \in Tasks |-> k] /\ busy = [w \in Slots(mode) |-> Free]
        /\ got = [t \in {} |-> {}] /\ scratch = {} /\ run = 1 /\ outcome = <<>>

Take == \E w \in DOMAIN busy :
           /\ todo # <<>> /\ busy[w] = Free
           /\ busy' = [busy EXCEPT ![w] = Head(todo)] /\ todo' = Tail(todo)
           /\ UNCHANGED <<res, mode, got, scratch, run, outcome>>

\* what the task finds when the estimator it runs in has the edges in scratch protected
Done == \E w \in DOMAIN busy :
           /\ busy[w] # Free
           /\ LET t == busy[w]
                  protected == {p \in Tasks : <<p, t>> \in scratch}
              IN /\ got' = [x \in DOMAIN got \union {t} |-> IF x = t THEN res[t] \union protected ELSE got[x]]
                 /\ scratch' = IF mode = 0
                               THEN scratch \union {<<p, t>> : p \in Tasks \ (res[t] \union {t})} ELSE scratch
           /\ busy' = [busy EXCEPT ![w] = Free]
           /\ UNCHANGED <<res, mode, todo, run, outcome>>

Collect == /\ todo = <<>> /\ \A w \in DOMAIN busy : busy[w] = Free
           /\ Len(outcome) < run
           /\ outcome' = Append(outcome, Whole(got)) /\ scratch' = {}
           /\ UNCHANGED <<res, mode, todo, busy, got, run>>

Again == /\ Len(outcome) = run /\ run < 2
         /\ \E m \in Modes : Begin(m)
         /\ run' = run + 1 /\ UNCHANGED <<res, scratch, outcome>>

Next == Take \/ Done \/ Collect \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EachOnce == Len(outcome) = run => DOMAIN got = Tasks
SameOutcome == \A k \in 1..Len(outcome) : outcome[k] = Whole(res)
Finishes == <>(run = 2 /\ Len(outcome) = 2)
=============================================================================
