------------------------------ MODULE IndepMC ------------------------------
(***************************************************************************)
(* Design model of the test: records of a node x (column 1) and a          *)
(* candidate X (column 2) arrive one by one; in every state the node may   *)
(* be judged.  Checked: a verdict exists, a candidate that never changes   *)
(* is independent, renaming the states of the candidate or of the node     *)
(* changes nothing, lack of data never judges independent.                 *)
(***************************************************************************)
EXTENDS IndepTest, TLC, Json, IOUtils

CONSTANTS MaxRecs, CardX, Durations

Tables == JsonDeserialize(IOEnv.TABLES)
Tb == [F |-> Tables.F[5], chi |-> Tables.chi[5]]     \* significance level 0.5: few records suffice
Cards == <<CardX, 2>>

VARIABLES st1, st2, m1, m2, seen, k, judged
vars == <<st1, st2, m1, m2, seen, k, judged>>
\* m1, m2: the same data with the states of the candidate and those of the node renamed
Ren(c, v) == IF v < 0 THEN v ELSE c - 1 - v

Init == /\ st1 = ZeroStats(Cards, 1, <<>>) /\ st2 = ZeroStats(Cards, 1, <<2>>)
        /\ m1 = st2 /\ m2 = [one |-> st1, two |-> st2]
        /\ seen = {} /\ k = 0 /\ judged = "no"

Step(d, v, c, w) ==
    /\ k < MaxRecs /\ judged = "no"
    /\ LET r == <<d, v, c, w, c>>
           rc == <<d, v, Ren(2, c), w, Ren(2, c)>>
           rx == <<d, Ren(CardX, v), c, Ren(CardX, w), c>>
       IN /\ st1' = AddRecord(2, Cards, 1, <<>>, st1, r)
          /\ st2' = AddRecord(2, Cards, 1, <<2>>, st2, r)
          /\ m1' = AddRecord(2, Cards, 1, <<2>>, m1, rc)
          /\ m2' = [one |-> AddRecord(2, Cards, 1, <<>>, m2.one, rx), two |-> AddRecord(2, Cards, 1, <<2>>, m2.two, rx)]
    /\ seen' = seen \union {c} /\ k' = k + 1 /\ UNCHANGED judged

Dec(a, b, thr) == Decide(Tb, Cards, 1, 2, {}, [S \in {{}, {2}} |-> IF S = {} THEN a ELSE b], 1, 1, thr)

JudgedIndependent == /\ judged = "no" /\ TRUE \in Dec(st1, st2, 0).ans /\ judged' = "independent"
                     /\ UNCHANGED <<st1, st2, m1, m2, seen, k>>
JudgedDependent == /\ judged = "no" /\ FALSE \in Dec(st1, st2, 0).ans /\ judged' = "dependent"
                   /\ UNCHANGED <<st1, st2, m1, m2, seen, k>>

Next == \/ \E d \in Durations, v \in 0..(CardX - 1), c \in {0, 1}, w \in 0..(CardX - 1) : Step(d, v, c, w)
        \/ JudgedIndependent \/ JudgedDependent
Spec == Init /\ [][Next]_vars
MCView == <<st2, judged>>

Decided == Dec(st1, st2, 0).ans # {}
Constant == Cardinality(seen) <= 1 => Dec(st1, st2, 0).ans = {TRUE}
Renamed == /\ Dec(st1, st2, 0).ans = Dec(st1, m1, 0).ans
           /\ Dec(st1, st2, 0).ans = Dec(m2.one, m2.two, 0).ans
NoDataNoIndependence == CardX > 2 => /\ Dec(st1, st2, 4 * MaxRecs).ans = {FALSE}
                                     /\ Dec(st1, st2, 4 * MaxRecs).prot # {FALSE}
=============================================================================
