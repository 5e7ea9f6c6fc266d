----------------------------- MODULE FamScoreMC -----------------------------
(***************************************************************************)
(* Design model: why the closed form is the marginal likelihood.  A node   *)
(* with C states leaves one of its states again and again: sojourns        *)
(* (Stay(d)) and moves (Move(w)) arrive one by one, and the exact          *)
(* predictive probability (density) of each given the past is multiplied   *)
(* up, as a fraction.  Checked in every state: the product equals the      *)
(* closed form, does not depend on the order of arrival, and predictive    *)
(* probabilities of the next move add up to one.                           *)
(* alpha and tau are positive integers here.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS C, Alpha, Tau, MaxSteps

VARIABLES mv, tt, tm, num, den, sn, sd
vars == <<mv, tt, tm, num, den, sn, sd>>

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Rise(_, _, _)            \* a (a+s) (a+2s) ... k factors
Rise(a, s, k) == IF k = 0 THEN 1 ELSE Rise(a, s, k - 1) * (a + s * (k - 1))
RECURSIVE ProdRise(_, _)
ProdRise(f, w) == IF w = 0 THEN 1 ELSE ProdRise(f, w - 1) * Rise(Alpha, C - 1, f[w])
RECURSIVE Total(_, _)
Total(f, w) == IF w = 0 THEN 0 ELSE Total(f, w - 1) + f[w]

Init == /\ mv = [w \in 1..(C - 1) |-> 0] /\ num = 1 /\ den = 1
        /\ tm = 0 /\ tt = 0 /\ sn = 1 /\ sd = 1

\* a move to another state w: predictive probability (alpha/(C-1) + M[w]) / (alpha + M)
Move(w) == /\ Total(mv, C - 1) < MaxSteps
           /\ num' = num * (Alpha + (C - 1) * mv[w])
           /\ den' = den * (C - 1) * (Alpha + Total(mv, C - 1))
           /\ mv' = [mv EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<tt, tm, sn, sd>>

\* a sojourn of d ticks: predictive density (alpha+1+m) (tau+t)^(alpha+1+m) / (tau+t+d)^(alpha+2+m)
Stay(d) == /\ tm < 2
           /\ sn' = sn * (Alpha + 1 + tm) * Pow(Tau + tt, Alpha + 1 + tm)
           /\ sd' = sd * Pow(Tau + tt + d, Alpha + 2 + tm)
           /\ tt' = tt + d /\ tm' = tm + 1
           /\ UNCHANGED <<mv, num, den>>

Next == (\E w \in 1..(C - 1) : Move(w)) \/ (\E d \in 0..1 : Stay(d))
Spec == Init /\ [][Next]_vars

ClosedMoves == num * Pow(C - 1, Total(mv, C - 1)) * Rise(Alpha, 1, Total(mv, C - 1)) = den * ProdRise(mv, C - 1)
ClosedSojourns == sn * Pow(Tau + tt, Alpha + tm + 1) = sd * Rise(Alpha + 1, 1, tm) * Pow(Tau, Alpha + 1)
RECURSIVE SumPred(_)
SumPred(w) == IF w = 0 THEN 0 ELSE SumPred(w - 1) + Alpha + (C - 1) * mv[w]
Normalised == SumPred(C - 1) = (C - 1) * (Alpha + Total(mv, C - 1))
=============================================================================
