---------------------------- MODULE MultiSample ----------------------------
(***************************************************************************)
(* Sampling several trajectories at once: one worker per bound, the        *)
(* results are collected in the order in which the workers finish.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoList == <<-1>>           \* a list of bounds that was not given

\* the bounds in force: end times take precedence
Bounds(tends, maxtrs) ==
    IF tends # NoList THEN [i \in DOMAIN tends |-> [tend |-> tends[i], maxtr |-> -1]]
    ELSE IF maxtrs # NoList THEN [i \in DOMAIN maxtrs |-> [tend |-> -1, maxtr |-> maxtrs[i]]]
    ELSE <<>>

Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)

\* results can be matched with the bounds so that each respects its own (for sorted sequences: position by position)
MatchRows(rows, maxtrs) ==
    /\ Len(rows) = Len(maxtrs)
    /\ LET r == Sorted(rows)  m == Sorted(maxtrs) IN \A i \in DOMAIN m : r[i] = m[i] + 1
MatchEnds(ends, tends, gap) ==
    /\ Len(ends) = Len(tends)
    /\ LET r == Sorted(ends)  b == Sorted(tends) IN \A i \in DOMAIN b : r[i] <= b[i] /\ (gap < 0 \/ r[i] >= b[i] - gap)
=============================================================================
