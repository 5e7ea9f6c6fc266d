------------------------------- MODULE CtpcMC -------------------------------
(***************************************************************************)
(* Design model of constraint based learning: every oracle, every set of   *)
(* known parents, candidates in every order.                               *)
(***************************************************************************)
EXTENDS Ctpc, TLC

CONSTANTS Cands, Knowns

VARIABLES s, indep, known, sep, ended
vars == <<s, indep, known, sep, ended>>

Pairs == {<<X, S>> \in Cands \X SUBSET Cands : X \notin S}

Init == /\ indep \in [Pairs -> BOOLEAN]
        /\ known \in Knowns
        /\ s = CtpcInit(Cands, known)
        /\ sep = {} /\ ended = FALSE

Test(X, S) == /\ ~ended /\ MayTest(s, X, S) /\ <<X, S>> \notin s.tested
              /\ s' = Tested(s, X, S, indep[<<X, S>>])
              /\ sep' = IF indep[<<X, S>>] THEN sep \union {X} ELSE sep
              /\ UNCHANGED <<indep, known, ended>>

Level == /\ ~ended /\ ~Ended(s) /\ LevelDone(s)
         /\ s' = NextLevel(s, s.prot)
         /\ UNCHANGED <<indep, known, sep, ended>>

End == /\ ~ended /\ Ended(s) /\ ended' = TRUE /\ UNCHANGED <<s, indep, known, sep>>

Next == (\E X \in Cands, S \in SUBSET Cands : Test(X, S)) \/ Level \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

KnownKept == known \subseteq s.u
RemovedOnlyIfSeparated == Cands \ s.u = sep
NoneSeparatedLeft == ended => \A X \in s.u \ known : \A S \in SUBSET (s.u \ {X}) : ~indep[<<X, S>>]
V == [X \in Cands |-> [S \in SUBSET (Cands \ {X}) |-> [ans |-> {indep[<<X, S>>]}, prot |-> {FALSE}]]]
OutcomeListed == ended => s.u \in AllOutcomes(V, Cands, known)
CanGoOn == ended \/ ENABLED Next
Terminates == <>ended
=============================================================================
