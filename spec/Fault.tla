------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* Operations that fail: a test or a score that raises in some task, a     *)
(* worker that dies, input that is refused.  A failure is reported to the  *)
(* caller, shows no part of a result, and leaves everything as it was      *)
(* before the operation: what comes later answers as if it had not been    *)
(* tried.                                                                  *)
(*                                                                         *)
(* s: [shown, answers]                                                     *)
(*   shown[k]: the structure estimator k shows (every edge before it has   *)
(*             learned anything),                                          *)
(*   answers:  what each operation has answered so far,                    *)
(*   holds[i]: what importer i imported last without an error.             *)
(***************************************************************************)
EXTENDS Pool, TLC

Every(n) == {p \in (1..n) \X (1..n) : p[1] # p[2]}
FaultInit(n, ests) == [shown |-> [k \in 1..ests |-> Every(n)], answers |-> {}, holds |-> [i \in 1..2 |-> "nothing"]]

Reported(must, err) == must = "fail" => err # ""
Works(must, err) == must = "ok" => err = ""
Agrees(s, key, out) == \A a \in s.answers : a.key = key => a.out = out
Answered(s, key, out) == [s EXCEPT !.answers = @ \union {[key |-> key, out |-> out]}]
Learned(s, k, E) == [s EXCEPT !.shown[k] = E]
\* what importer i shows is filed under what it imported last
Holding(s, i) == "importer " \o ToString(i) \o " holds " \o s.holds[i]
Loaded(s, i, what) == [s EXCEPT !.holds[i] = what]
=============================================================================
