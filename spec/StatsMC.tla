------------------------------ MODULE StatsMC ------------------------------
(***************************************************************************)
(* Design model: records arrive in any order (Observe), the statistics of  *)
(* node 1 are kept for the parent sets {}, {2}, {3} and {2,3} of mixed     *)
(* cardinalities.  Checked in every state: they equal the declarative      *)
(* definition, conserve time and transitions, marginalise onto each other, *)
(* every configuration is enumerated once, selections partition the list.  *)
(***************************************************************************)
EXTENDS Stats, TLC

CONSTANTS MaxRecs

Cards == <<2, 2, 3>>
VARIABLES recs, acc
vars == <<recs, acc>>

PSets == {<<>>, <<2>>, <<3>>, <<2, 3>>}
\* a few states of <<node, parent, parent>> keep the space small without losing a configuration
Before == {<<1, a, b>> : a \in {0, 1}, b \in {0, 1, 2}} \union {<<0, 1, 2>>, <<0, 0, 1>>}
After == {<<0, 0, 0>>, <<1, 1, 2>>, <<-1, -1, -1>>}
RecordSet == {<<d>> \o b \o a : d \in {1, 2}, b \in Before, a \in After}

Init == recs = <<>> /\ acc = [ps \in PSets |-> ZeroStats(Cards, 1, ps)]

Observe(r) == /\ Len(recs) < MaxRecs
              /\ recs' = Append(recs, r)
              /\ acc' = [ps \in PSets |-> AddRecord(3, Cards, 1, ps, acc[ps], r)]

Next == \E r \in RecordSet : Observe(r)
Spec == Init /\ [][Next]_vars
MCView == acc

\* declarative definition
Match(r, ps, u, v) == r[2] = v /\ \A k \in 1..Len(ps) : r[1 + ps[k]] = CombOf(Cards, ps, u)[k]
RECURSIVE SumT(_, _, _, _)
SumT(ps, u, v, i) == IF i = 0 THEN 0 ELSE SumT(ps, u, v, i - 1) + (IF Match(recs[i], ps, u, v) THEN recs[i][1] ELSE 0)
CountM(ps, u, v, w) == Cardinality({i \in 1..Len(recs) : Match(recs[i], ps, u, v) /\ recs[i][5] = w /\ v # w})

Definition == \A ps \in PSets : \A u \in 0..(NConfigs(Cards, ps) - 1) : \A v \in {0, 1} :
                /\ acc[ps].T[u + 1][v + 1] = SumT(ps, u, v, Len(recs))
                /\ acc[ps].M[u + 1][v + 1][2 - v] = CountM(ps, u, v, 1 - v)
                /\ acc[ps].M[u + 1][v + 1][v + 1] = acc[ps].M[u + 1][v + 1][2 - v]

RECURSIVE SumU(_, _, _)
SumU(f, v, u) == IF u = 0 THEN 0 ELSE SumU(f, v, u - 1) + f[u][v]
Marginal == \A ps \in PSets : \A v \in {1, 2} : SumU(acc[ps].T, v, NConfigs(Cards, ps)) = acc[<<>>].T[1][v]

Enumerated == \A ps \in PSets : LET c == Combs(Cards, ps) IN
                /\ \A i, j \in 1..Len(c) : c[i] = c[j] => i = j
                /\ \A u \in 1..Len(c) : CfgOf(Cards, ps, c[u], Len(ps)) = u - 1

Partition == LET c == Combs(Cards, <<2, 3>>) IN
                \A mask \in [1..2 -> BOOLEAN] :
                   \A u \in 1..Len(c) : \E comb \in {[k \in 1..Len(Marked(mask)) |-> c[u][Marked(mask)[k]]]} :
                      \E i \in 1..Len(Selected(c, mask, comb)) : Selected(c, mask, comb)[i] = u
=============================================================================
