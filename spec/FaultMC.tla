------------------------------ MODULE FaultMC ------------------------------
(***************************************************************************)
(* Learning runs over all schedules of tasks and workers, any of which may *)
(* fail: a task raises, a worker dies, or the run is interrupted.  While a *)
(* run is under way the prior edges are taken out of the structure and the *)
(* tests of a sequential run protect edges in the estimator; both are      *)
(* restored however the run ends.                                          *)
(***************************************************************************)
EXTENDS Fault, TLC

CONSTANTS N, MaxWorkers, Runs, MaxFaults

VARIABLES res, prior, struct, scratch, mode, todo, busy, got, error, phase, run, faults, fs, outcome
vars == <<res, prior, struct, scratch, mode, todo, busy, got, error, phase, run, faults, fs, outcome>>

Tasks == 1..N
Free == 0
Slots(m) == IF m = 0 THEN {1} ELSE 1..m

Init == /\ res \in [Tasks -> SUBSET Tasks] /\ \A t \in Tasks : t \notin res[t]
        /\ prior \in {{}, {<<1, 2>>}, {<<1, 2>>, <<2, 1>>}} /\ struct = prior /\ scratch = {}
        /\ mode = 0 /\ todo = <<>> /\ busy = <<>> /\ got = <<>> /\ error = FALSE
        /\ phase = "idle" /\ run = 0 /\ faults = 0 /\ fs = FaultInit(N, 1) /\ outcome = {}

Start == /\ phase = "idle" /\ run < Runs
         /\ \E m \in 0..MaxWorkers :
               /\ mode' = m /\ todo' = [k \in Tasks |-> k] /\ busy' = [w \in Slots(m) |-> Free]
         /\ got' = [t \in {} |-> {}] /\ error' = FALSE /\ phase' = "busy" /\ run' = run + 1
         /\ struct' = {} /\ UNCHANGED <<res, prior, scratch, faults, fs, outcome>>

Take == \E w \in DOMAIN busy :
           /\ phase = "busy" /\ ~error /\ todo # <<>> /\ busy[w] = Free
           /\ busy' = [busy EXCEPT ![w] = Head(todo)] /\ todo' = Tail(todo)
           /\ UNCHANGED <<res, prior, struct, scratch, mode, got, error, phase, run, faults, fs, outcome>>

Touched(t) == IF mode = 0 THEN scratch \union {<<p, t>> : p \in Tasks \ (res[t] \union {t})} ELSE scratch
Done == \E w \in DOMAIN busy :
           /\ phase = "busy" /\ busy[w] # Free
           /\ LET t == busy[w]  protected == {p \in Tasks : <<p, t>> \in scratch} IN
                 /\ got' = [x \in DOMAIN got \union {t} |-> IF x = t THEN res[t] \union protected ELSE got[x]]
                 /\ scratch' = Touched(t)
           /\ busy' = [busy EXCEPT ![w] = Free]
           /\ UNCHANGED <<res, prior, struct, mode, todo, error, phase, run, faults, fs, outcome>>

\* a test of the task raises, after others of the task
Raise == \E w \in DOMAIN busy :
           /\ phase = "busy" /\ busy[w] # Free /\ faults < MaxFaults
           /\ scratch' = Touched(busy[w]) /\ busy' = [busy EXCEPT ![w] = Free]
           /\ error' = TRUE /\ faults' = faults + 1
           /\ UNCHANGED <<res, prior, struct, mode, todo, got, phase, run, fs, outcome>>
\* a worker dies: the pool is broken, what the others do is lost
Die == /\ phase = "busy" /\ mode > 0 /\ faults < MaxFaults
       /\ \E w \in DOMAIN busy : busy' = [v \in DOMAIN busy |-> Free]
       /\ todo' = <<>> /\ error' = TRUE /\ faults' = faults + 1
       /\ UNCHANGED <<res, prior, struct, scratch, mode, got, phase, run, fs, outcome>>
Interrupt == /\ phase = "busy" /\ ~error /\ faults < MaxFaults
             /\ error' = TRUE /\ faults' = faults + 1
             /\ UNCHANGED <<res, prior, struct, scratch, mode, todo, busy, got, phase, run, fs, outcome>>

Over == phase = "busy" /\ \A w \in DOMAIN busy : busy[w] = Free
Collect == /\ Over /\ ~error /\ todo = <<>>
           /\ struct' = prior /\ scratch' = {} /\ phase' = "idle"
           /\ outcome' = outcome \union {Whole(got)} /\ fs' = Learned(Answered(fs, 0, Whole(got)), 1, Whole(got))
           /\ UNCHANGED <<res, prior, mode, todo, busy, got, error, run, faults>>
Abort == /\ Over /\ error
         /\ struct' = prior /\ scratch' = {} /\ phase' = "idle"
         /\ UNCHANGED <<res, prior, mode, todo, busy, got, error, run, faults, fs, outcome>>

Next == Start \/ Take \/ Done \/ Raise \/ Die \/ Interrupt \/ Collect \/ Abort
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Done \/ Collect \/ Abort)

AsItWas == phase = "idle" => struct = prior /\ scratch = {}
SameOutcome == outcome \subseteq {Whole(res)}
NoPart == fs.shown[1] \in {Every(N), Whole(res)}
Answers == \A a, b \in fs.answers : a.key = b.key => a.out = b.out
Ends == phase = "busy" ~> phase = "idle"
=============================================================================
