------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* Design model of both searches: every score table over the candidates,   *)
(* every sequence of proposals, all parameters in a small range.           *)
(***************************************************************************)
EXTENDS Search, TLC

CONSTANTS Cands, Kinds, MaxScore, Iters, Patience, MaxPs, TLens, TDurs

\* value sets with "no limit" (-1): a configuration file has no negative numbers
UpTo1 == {-1, 0, 1}
None1 == {-1, 1}
None2 == {-1, 2}
None13 == {-1, 1, 3}

VARIABLES p, s, sc, visited, done
vars == <<p, s, sc, visited, done>>

Init == /\ \E pr \in {{}, {CHOOSE c \in Cands : TRUE}} :
             p \in [kind : Kinds, cands : {Cands \ pr}, prior : {pr}, maxp : MaxPs, iters : Iters, patience : Patience,
                    tlen : TLens, tdur : TDurs]
        /\ p.kind = "hill" => p.tlen = -1 /\ p.tdur = -1
        /\ sc \in [SUBSET Cands -> 0..MaxScore]
        /\ s = SearchInit /\ visited = {} /\ done = FALSE

Start == /\ ~s.started
         /\ s' = Started(p, s, sc[p.prior]) /\ visited' = {p.prior}
         /\ UNCHANGED <<p, sc, done>>

Iterate == /\ s.started /\ ~done /\ ~Stopped(p, s)
           /\ \E c \in Proposable(p, s) : \E S \in Moves(p, s, c) :
                 /\ s' = Iterated(p, s, c, S, sc[S])
                 /\ visited' = visited \union {S}
           /\ UNCHANGED <<p, sc, done>>

Return == /\ s.started /\ ~done /\ Stopped(p, s)
          /\ done' = TRUE /\ UNCHANGED <<p, s, sc, visited>>

Next == Start \/ Iterate \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

KnownKept == s.started => p.prior \subseteq s.cur
LimitKept == s.started /\ p.maxp >= 0 => Cardinality(s.cur) <= p.maxp \/ s.cur \subseteq p.prior
BestVisited == s.started => s.best = sc[s.cur] /\ \A S \in visited : sc[S] <= s.best
OnlyUphill == s.started => s.cur \in ReachUp(p, {p.prior}, sc)
TabuBounded == /\ Len(s.queue) <= TLen(p)
               /\ Cardinality(ElemsOf(s.queue)) = Len(s.queue)
               /\ ElemsOf(s.queue) \subseteq p.cands
CanPropose == s.started /\ ~Stopped(p, s) => Proposable(p, s) # {}
Terminates == <>done
=============================================================================
