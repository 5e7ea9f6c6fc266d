------------------------------- MODULE Repro -------------------------------
(***************************************************************************)
(* Repetition: what an operation answers is determined by the seeds, the   *)
(* operations since seeding and their inputs - not by what the process or  *)
(* the objects did before seeding, nor by which process it is.             *)
(*                                                                         *)
(* s: [since, answers]                                                     *)
(*   since: the seed and the operations since it was set,                  *)
(*   answers: what was answered so far to each such history.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ReproInit == [since |-> <<>>, answers |-> {}]
Seeded(s, seed) == [s EXCEPT !.since = <<seed>>]
\* op: the operation and its inputs, out: the answer
Known(s, op) == \E a \in s.answers : a.key = Append(s.since, op)
Repeats(s, op, out) == \A a \in s.answers : a.key = Append(s.since, op) => a.out = out
Answered(s, op, out) == [s EXCEPT !.since = Append(@, op), !.answers = @ \union {[key |-> Append(s.since, op), out |-> out]}]
=============================================================================
