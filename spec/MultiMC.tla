------------------------------ MODULE MultiMC ------------------------------
(***************************************************************************)
(* All schedules of the workers of several calls.  A worker is forked from *)
(* the caller with the state of its random stream; the design hands every  *)
(* worker a seed drawn by the caller, who moves on in its stream.  A worker  *)
(* that fails is reported: the call then ends without a result.            *)
(***************************************************************************)
EXTENDS MultiSample, TLC

CONSTANTS MaxB, MaxWorkers, Calls, MaxFaults

VARIABLES tends, maxtrs, stream, busy, workers, done, calls, used, faults, error
vars == <<tends, maxtrs, stream, busy, workers, done, calls, used, faults, error>>

Lists == {NoList} \union UNION {[1..k -> 0..MaxB] : k \in 0..MaxWorkers}

Init == /\ tends = NoList /\ maxtrs = NoList /\ stream = 0 /\ busy = FALSE /\ workers = <<>> /\ done = <<>> /\ calls = 0 /\ used = <<>>
        /\ faults = 0 /\ error = FALSE

\* stream positions name the draws of the caller; worker w is seeded with draw stream + w
Call == /\ ~busy /\ busy' = TRUE /\ calls < Calls /\ calls' = calls + 1
        /\ tends' \in Lists /\ maxtrs' \in Lists
        /\ LET b == Bounds(tends', maxtrs') IN
           /\ workers' = [i \in DOMAIN b |-> [bound |-> b[i], seed |-> stream + i, st |-> "run"]]
           /\ stream' = stream + Len(b)
        /\ done' = <<>> /\ error' = FALSE /\ UNCHANGED <<used, faults>>

FinishOne == /\ busy
             /\ \E w \in DOMAIN workers :
                  /\ workers[w].st = "run"
                  \* what a worker returns: as many rows as its bound allows, a last time up to its bound
                  /\ \E v \in IF workers[w].bound.tend >= 0 THEN 0..workers[w].bound.tend ELSE {workers[w].bound.maxtr + 1} :
                       done' = Append(done, [v |-> v, seed |-> workers[w].seed])
                  /\ workers' = [workers EXCEPT ![w].st = "over"]
             /\ UNCHANGED <<tends, maxtrs, stream, busy, calls, used, faults, error>>

Fail == /\ busy /\ faults < MaxFaults
        /\ \E w \in DOMAIN workers : workers[w].st = "run" /\ workers' = [workers EXCEPT ![w].st = "failed"]
        /\ faults' = faults + 1
        /\ UNCHANGED <<tends, maxtrs, stream, busy, done, calls, used, error>>

Return == /\ busy /\ \A w \in DOMAIN workers : workers[w].st = "over"
          /\ busy' = FALSE /\ workers' = <<>>
          /\ used' = used \o [i \in DOMAIN done |-> done[i].seed]
          /\ UNCHANGED <<tends, maxtrs, stream, done, calls, faults, error>>

Report == /\ busy /\ \A w \in DOMAIN workers : workers[w].st # "run"
          /\ \E w \in DOMAIN workers : workers[w].st = "failed"
          /\ busy' = FALSE /\ workers' = <<>> /\ error' = TRUE /\ done' = <<>>
          /\ UNCHANGED <<tends, maxtrs, stream, calls, used, faults>>

Next == Call \/ FinishOne \/ Fail \/ Return \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(FinishOne \/ Return \/ Report)

Values == [i \in DOMAIN done |-> done[i].v]
OnePerBound ==
    ~busy /\ calls > 0 /\ ~error =>
        IF tends # NoList THEN MatchEnds(Values, tends, -1)
        ELSE IF maxtrs # NoList THEN MatchRows(Values, maxtrs) ELSE done = <<>>
NoPart == error => done = <<>>
Ends == busy ~> ~busy
Independent == \A i, j \in DOMAIN used : i # j => used[i] # used[j]
=============================================================================
