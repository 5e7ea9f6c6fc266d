-------------------------------- MODULE Ctpc --------------------------------
(***************************************************************************)
(* Constraint based learning of the parents of one node.                   *)
(*                                                                         *)
(* s: [u, u0, b, prot, tested]                                             *)
(*   u: remaining parents, u0: those remaining when level b began,         *)
(*   b: size of the conditioning sets now tested,                          *)
(*   prot: parents that may not be removed (known, or tests lacked data),  *)
(*   tested: the pairs <<X, S>> tested at this level.                      *)
(* Candidates may be taken in any order.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CtpcInit(cands, known) == [u |-> cands, u0 |-> cands, b |-> 0, prot |-> known, tested |-> {}]

SubsetsOf(s, X) == kSubset(s.b, s.u \ {X})

LevelDone(s) == \A X \in s.u \ s.prot : \A S \in SubsetsOf(s, X) : <<X, S>> \in s.tested
Ended(s) == s.b >= Cardinality(s.u)

NextLevel(s, prot) == [s EXCEPT !.b = @ + 1, !.u0 = s.u, !.tested = {}, !.prot = prot]

MayTest(s, X, S) == /\ ~Ended(s) /\ X \in s.u \ s.prot /\ S \in SubsetsOf(s, X)

\* one test; ans: judged independent
Tested(s, X, S, ans) == [s EXCEPT !.u = IF ans THEN @ \ {X} ELSE @, !.tested = @ \union {<<X, S>>}]

(***************************************************************************)
(* Seen from outside: the parent sets learning can end with, when          *)
(* V[X][S] = [ans, prot] says what a test may answer and whether it may    *)
(* protect the edge (sets of Booleans).                                    *)
(***************************************************************************)
RECURSIVE Outcomes(_, _, _, _, _)
Outcomes(V, u, u0, b, prot) ==
    IF b >= Cardinality(u) THEN {u}
    ELSE LET free == u \ prot
             Sub(X) == kSubset(b, u \ {X})
             gone == {X \in free : \E S \in Sub(X) : TRUE \in V[X][S].ans}
             mayEnd == \A X \in free : \A S \in Sub(X) : FALSE \in V[X][S].ans
             must == {X \in free : \E S \in Sub(X) : V[X][S].prot = {TRUE}}
             may == {X \in free : \E S \in kSubset(b, u0 \ {X}) : TRUE \in V[X][S].prot}
         IN (UNION {Outcomes(V, u \ {X}, u0, b, prot) : X \in gone})
            \union (IF mayEnd
                    THEN UNION {Outcomes(V, u, u, b + 1, prot \union must \union Q) : Q \in SUBSET (may \ must)}
                    ELSE {})

AllOutcomes(V, cands, known) == Outcomes(V, cands, cands, 0, known)
=============================================================================
