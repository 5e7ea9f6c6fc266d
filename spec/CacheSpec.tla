----------------------------- MODULE CacheSpec -----------------------------
(***************************************************************************)
(* The cache: a dictionary keyed by sets.  m maps every key to the values  *)
(* stored under it since the last clearing; a find may return any of them  *)
(* (0 when there is none).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EmptyCache == [k \in {} |-> {}]
Stored(m, key) == IF key \in DOMAIN m THEN m[key] ELSE {}
AfterPut(m, key, val) == [k \in DOMAIN m \union {key} |-> IF k = key THEN Stored(m, key) \union {val} ELSE m[k]]
MayFind(m, key) == IF Stored(m, key) = {} THEN {0} ELSE Stored(m, key)
=============================================================================
