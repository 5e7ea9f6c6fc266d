------------------------------ MODULE CacheMC ------------------------------
(***************************************************************************)
(* Every sequence of put, find and clear over small keys; with Emit as a   *)
(* constraint the simulator prints behaviours that are replayed in the     *)
(* code (history variable ops).                                            *)
(***************************************************************************)
EXTENDS CacheSpec, TLC, Json

CONSTANTS Elems, MaxOps, Record

VARIABLES m, ops, nextval, puts
vars == <<m, ops, nextval, puts>>

Keys == SUBSET Elems
Log(e) == ops' = IF Record \/ Len(ops) < MaxOps THEN Append(ops, e) ELSE ops

Init == m = EmptyCache /\ ops = <<>> /\ nextval = 1 /\ puts = {}

Put(key) == /\ Len(ops) < MaxOps
            /\ m' = AfterPut(m, key, nextval) /\ nextval' = nextval + 1 /\ puts' = puts \union {<<key, nextval>>}
            /\ Log([a |-> "put", key |-> key, val |-> nextval])
Find(key) == /\ Len(ops) < MaxOps /\ Log([a |-> "find", key |-> key, val |-> 0]) /\ UNCHANGED <<m, nextval, puts>>
Clear == /\ Len(ops) < MaxOps
         /\ m' = EmptyCache /\ puts' = {} /\ Log([a |-> "clear", key |-> {}, val |-> 0]) /\ UNCHANGED nextval

Next == (\E k \in Keys : Put(k) \/ Find(k)) \/ Clear
Spec == Init /\ [][Next]_vars
MCView == <<m, nextval, puts, Len(ops)>>

FindsWhatWasPut == \A k \in Keys : \A v \in MayFind(m, k) : IF v = 0 THEN \A x \in puts : x[1] # k ELSE <<k, v>> \in puts
KeysKeptApart == \A k, l \in Keys : k # l => Stored(m, k) \cap Stored(m, l) = {}
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
=============================================================================
