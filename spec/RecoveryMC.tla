----------------------------- MODULE RecoveryMC -----------------------------
(***************************************************************************)
(* The algorithms of Ctpc and Search find the parents with every faithful  *)
(* test and every guiding score, in every order of their steps.            *)
(***************************************************************************)
EXTENDS Recovery, TLC

CONSTANTS Cands, Kinds, MaxScore, TLens

VARIABLES kind, pa, known, oracle, s, done
vars == <<kind, pa, known, oracle, s, done>>

C == INSTANCE Ctpc
S == INSTANCE Search

Pairs == {<<X, T>> \in Cands \X SUBSET Cands : X \notin T}

P == [kind |-> kind, cands |-> Cands \ known, prior |-> known, maxp |-> -1, iters |-> 1, patience |-> -1, tlen |-> s.tlen, tdur |-> -1]

\* only what is left open varies: tests the truth does not determine
Open == {w \in Pairs : w[1] \notin pa /\ ~(pa \subseteq w[2])}
Tests == {[w \in Pairs |-> IF w[1] \in pa THEN FALSE ELSE IF pa \subseteq w[2] THEN TRUE ELSE w \in Y] : Y \in SUBSET Open}

Init == /\ kind \in Kinds /\ pa \in SUBSET Cands
        /\ known \in {{}} \union {{c} : c \in pa}
        /\ done = FALSE
        /\ IF kind = "tests"
           THEN oracle \in Tests /\ s = C!CtpcInit(Cands, known)
           ELSE /\ oracle \in {f \in [SUBSET Cands -> 0..MaxScore] : Guiding(f, Cands, pa)}
                /\ \E t \in TLens : s = [S!SearchInit EXCEPT !.started = TRUE, !.cur = known, !.best = oracle[known]] @@ [tlen |-> t]

Test == /\ kind = "tests" /\ ~done
        /\ \E X \in Cands, T \in SUBSET Cands :
              C!MayTest(s, X, T) /\ <<X, T>> \notin s.tested /\ s' = C!Tested(s, X, T, oracle[<<X, T>>])
        /\ UNCHANGED <<kind, pa, known, oracle, done>>
Level == /\ kind = "tests" /\ ~done /\ ~C!Ended(s) /\ C!LevelDone(s) /\ s' = C!NextLevel(s, s.prot)
         /\ UNCHANGED <<kind, pa, known, oracle, done>>
EndTests == /\ kind = "tests" /\ ~done /\ C!Ended(s) /\ done' = TRUE /\ UNCHANGED <<kind, pa, known, oracle, s>>

\* searches that go on until no step leads further (the number of steps and of failures is not kept)
Propose == /\ kind # "tests" /\ ~done
           /\ \E c \in S!Proposable(P, s) : \E T \in S!Moves(P, s, c) :
                 s' = [S!Iterated(P, s, c, T, oracle[T]) EXCEPT !.it = 0, !.pat = 0, !.tried = {}]
           /\ UNCHANGED <<kind, pa, known, oracle, done>>
Settle == /\ kind # "tests" /\ ~done /\ S!UphillFrom(P, s.cur, oracle) = {} /\ done' = TRUE
          /\ UNCHANGED <<kind, pa, known, oracle, s>>

Next == Test \/ Level \/ EndTests \/ Propose \/ Settle
Spec == Init /\ [][Next]_vars

Found == IF kind = "tests" THEN s.u ELSE s.cur
Recovered == done => Found = pa
NeverLost == kind = "tests" => pa \subseteq s.u
OracleRight == IF kind = "tests" THEN Faithful(oracle, pa) ELSE Guiding(oracle, Cands, pa)
\* no search gets stuck: whatever it was led to, a step uphill can still be proposed, or the parents are found
NotStuck == kind # "tests" /\ ~done => Found = pa \/ S!UphillFrom(P, s.cur, oracle) # {}
=============================================================================
