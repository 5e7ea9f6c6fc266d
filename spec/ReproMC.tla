------------------------------ MODULE ReproMC ------------------------------
(***************************************************************************)
(* Two processes draw from their own generators of random numbers; one     *)
(* operation (`Split') hands seeds to children that finish in any order.   *)
(* Objects keep counts of their own, which no answer depends on.           *)
(***************************************************************************)
EXTENDS Repro, TLC

CONSTANTS Procs, Seeds, Mod, MaxOps

VARIABLES gen, age, hist, kids
vars == <<gen, age, hist, kids>>
\* gen[p]: state of the generator of p (-1: never seeded); age[p]: operations done so far; hist: as in Repro, per process,
\* with the answers shared; kids[p]: children of a split under way [left: seeds, done: bag of answers (a sequence, sorted)]

Step(r) == (5 * r + 3) % Mod
Out(r) == r % 3
RECURSIVE Run(_, _)
Run(r, k) == IF k = 0 THEN [r |-> r, out |-> <<>>] ELSE LET n == Run(Step(r), k - 1) IN [r |-> n.r, out |-> <<Out(r)>> \o n.out]
None == [left |-> {}, done |-> {}, n |-> 0]

Init == /\ gen = [p \in Procs |-> 0] /\ age = [p \in Procs |-> 0]
        /\ hist = [p \in Procs |-> ReproInit] /\ kids = [p \in Procs |-> None]

All == UNION {hist[p].answers : p \in Procs}
Seed(p, x) == /\ kids[p] = None /\ age[p] < MaxOps
              /\ gen' = [gen EXCEPT ![p] = x] /\ hist' = [hist EXCEPT ![p] = Seeded(@, x)]
              /\ age' = [age EXCEPT ![p] = @ + 1] /\ UNCHANGED kids
Draw(p, k) == /\ hist[p].since # <<>> /\ kids[p] = None /\ age[p] < MaxOps
              /\ LET r == Run(gen[p], k) IN
                    /\ gen' = [gen EXCEPT ![p] = r.r]
                    /\ hist' = [hist EXCEPT ![p] = Answered(@, k, r.out)]
              /\ age' = [age EXCEPT ![p] = @ + 1] /\ UNCHANGED kids
Split(p) == /\ hist[p].since # <<>> /\ kids[p] = None /\ age[p] < MaxOps
            /\ LET r == Run(gen[p], 2) IN
                  /\ gen' = [gen EXCEPT ![p] = r.r]
                  /\ kids' = [kids EXCEPT ![p] = [left |-> {<<i, r.out[i]>> : i \in 1..2}, done |-> {}, n |-> 0]]
            /\ age' = [age EXCEPT ![p] = @ + 1] /\ UNCHANGED hist
\* a child ends: its answer joins the others; their order is not part of the answer
End(p) == /\ kids[p].left # {}
          /\ \E c \in kids[p].left :
                kids' = [kids EXCEPT ![p] = [left |-> @.left \ {c}, done |-> @.done \union {<<c[1], Run(c[2], 2).out>>}, n |-> @.n + 1]]
          /\ UNCHANGED <<gen, age, hist>>
Code(o) == 3 * o[1] + o[2]
Bag(d) == LET u == {Code(x[2]) : x \in d}
              lo == CHOOSE a \in u : \A b \in u : a <= b
              hi == CHOOSE a \in u : \A b \in u : a >= b IN <<lo, hi>>
Join(p) == /\ kids[p].left = {} /\ kids[p].n = 2
           /\ hist' = [hist EXCEPT ![p] = Answered(@, 0, Bag(kids[p].done))]
           /\ kids' = [kids EXCEPT ![p] = None] /\ UNCHANGED <<gen, age>>

Next == \E p \in Procs : (\E x \in Seeds : Seed(p, x)) \/ (\E k \in 1..2 : Draw(p, k)) \/ Split(p) \/ End(p) \/ Join(p)
Spec == Init /\ [][Next]_vars

Functional == \A a, b \in All : a.key = b.key => a.out = b.out
=============================================================================
