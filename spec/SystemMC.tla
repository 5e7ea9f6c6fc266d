------------------------------ MODULE SystemMC ------------------------------
(***************************************************************************)
(* All short histories of the whole system over one network of two binary  *)
(* variables (2 depends on 1): sampling jump by jump, writing, loading     *)
(* from documents or memory, learning.                                     *)
(***************************************************************************)
EXTENDS System, TLC

CONSTANTS MaxTrajs, MaxRows, MaxPaths, MaxStep, MaxPick

VARIABLES s, draft
vars == <<s, draft>>

Flip(a, b) == <<<<-a, a>>, <<b, -b>>>>
Net == [n |-> 2, cards |-> <<2, 2>>, parents |-> <<<<>>, <<1>>>>,
        q |-> <<(<<>> :> Flip(1, 1)), (<<0>> :> Flip(1, 2)) @@ (<<1>> :> Flip(0, 1))>>]

Init == s = Fresh(<<Net>>) /\ draft = <<<<0, 0, 0>>>>

Busy == Len(draft) > 1 \/ Len(s.trajs) < MaxTrajs

Grow == /\ Len(s.trajs) < MaxTrajs /\ Len(draft) < MaxRows
        /\ \E d \in 0..MaxStep, y \in {<<a, b>> : a, b \in {0, 1}} :
             /\ Jump(Net, RowState(draft[Len(draft)]), y)
             /\ draft' = Append(draft, <<draft[Len(draft)][1] + d>> \o y)
        /\ UNCHANGED s
Close == /\ Len(s.trajs) < MaxTrajs
         /\ s' = Sampled(s, 1, [draft EXCEPT ![Len(draft)] = <<@[1], -1, -1>>])
         /\ draft' = <<<<0, 0, 0>>>>
Pick == UNION {[1..m -> DOMAIN s.trajs] : m \in 1..MaxPick}
Write == /\ \E w \in Pick : s' = Written(s, "f", <<[net |-> 1, which |-> w]>>)
         /\ UNCHANGED draft
Load == /\ Len(s.paths) < MaxPaths /\ "f" \in DOMAIN s.docs
        /\ RecsOf(s, FromDocument(s, "f", 1)) # <<>>
        /\ s' = WithPath(s, FromDocument(s, "f", 1)) /\ UNCHANGED draft
Hand == /\ Len(s.paths) < MaxPaths
        /\ \E w \in Pick : /\ RecsOf(s, FromMemory(s, 1, w, {})) # <<>>
                           /\ s' = WithPath(s, FromMemory(s, 1, w, {}))
        /\ UNCHANGED draft
Learn == /\ \E k \in DOMAIN s.paths, E \in SUBSET {<<1, 2>>, <<2, 1>>} : s.learned[k] = {} /\ s' = Learned(s, k, E)
         /\ UNCHANGED draft

Edit == /\ \E k \in DOMAIN s.paths, b \in BOOLEAN : /\ b # (<<2, 1>> \in s.paths[k].prior)
                                                   /\ s' = Edited(s, k, b, <<2, 1>>)
        /\ UNCHANGED draft

Next == Edit \/ Grow \/ Close \/ Write \/ Load \/ Hand \/ Learn
Spec == Init /\ [][Next]_vars

Asks == {<<1, <<>>>>, <<1, <<2>>>>, <<2, <<>>>>, <<2, <<1>>>>}
AllValid == \A k \in DOMAIN s.trajs : ValidRows(Net, s.trajs[k].rows)
Conserved == \A k \in DOMAIN s.paths : \A a \in Asks : TimeConserved(s, s.paths[k], a[1], a[2]) /\ JumpsConserved(s, s.paths[k], a[1], a[2])
\* the statistics never leave the support of the network: no transition out of a state with rate zero
Supported == \A k \in DOMAIN s.paths : StatsFor(s, s.paths[k], 2, <<1>>).M[2][1][1] = 0
Monotone == [][/\ Len(s'.paths) >= Len(s.paths) /\ \A k \in DOMAIN s.paths : s'.paths[k].net = s.paths[k].net /\ s'.paths[k].which = s.paths[k].which
               /\ \A k \in DOMAIN s.trajs : s'.trajs[k] = s.trajs[k]]_vars
=============================================================================
