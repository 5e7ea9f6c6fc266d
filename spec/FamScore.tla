------------------------------ MODULE FamScore ------------------------------
(***************************************************************************)
(* The family score in closed form.                                        *)
(*                                                                         *)
(* Numbers are fixed point: <<hi, lo>> stands for (hi*10^6 + lo) / 10^9,   *)
(* 0 <= lo < 10^6.  A table h of primitive values is given with            *)
(*   h.an/h.ad  the imaginary count alpha                                  *)
(*   h.A[m+1]   = log Gamma(alpha + m)                                     *)
(*   h.X[c][m+1] = log Gamma(alpha/(c-1) + m)      (c: cardinality)        *)
(*   h.T[t+1]   = log(tau + t ticks)                                       *)
(* For every configuration u and state v with T[u][v] = t, M[u][v][v] = m: *)
(*   sojourns:     logG(alpha+m+1) + (alpha+1) log tau                     *)
(*                 - logG(alpha+1) - (alpha+m+1) log(tau+t)                *)
(*   transitions:  logG(alpha) - logG(alpha+m)                             *)
(*                 + SUM_{w # v} logG(alpha/(c-1)+M[v][w]) - logG(alpha/(c-1)) *)
(* The score is the sum; it is computed here multiplied by h.ad.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Base == 1000000
Norm(hi, lo) == <<hi + (lo \div Base), lo % Base>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Neg(a) == IF a[2] = 0 THEN <<-a[1], 0>> ELSE <<-a[1] - 1, Base - a[2]>>
Zero == <<0, 0>>
RECURSIVE Times(_, _)
Times(k, a) ==
    IF k < 0 THEN Neg(Times(-k, a))
    ELSE IF k < 2000 THEN Norm(k * a[1], k * a[2])
    ELSE Plus(Norm((k % 1000) * a[1], (k % 1000) * a[2]), Times(k \div 1000, Norm(1000 * a[1], 1000 * a[2])))
\* |a - b| <= eps * 10^-9, eps < 10^6
Close(a, b, eps) == LET d == Plus(a, Neg(b)) IN (d[1] = 0 /\ d[2] <= eps) \/ (d[1] = -1 /\ d[2] >= Base - eps)

Sojourn(h, m, t) ==
    Plus(Plus(Times(h.ad, h.A[m + 2]), Times(h.an + h.ad, h.T[1])),
         Plus(Times(-h.ad, h.A[2]), Times(-(h.an + h.ad * (m + 1)), h.T[t + 1])))

\* one table per cardinality c (h.X[c])
Moves(h, M, v) ==
    LET c == Len(M)
        x == h.X[c]
        others == SelectSeq([w \in 1..c |-> w], LAMBDA w : w # v)
        s == FoldLeft(LAMBDA a, w : Plus(a, Plus(x[M[v][w] + 1], Neg(x[1]))), Zero, others)
    IN Times(h.ad, Plus(s, Plus(h.A[1], Neg(h.A[M[v][v] + 1]))))

CfgScore(h, T, M) ==
    FoldLeft(LAMBDA a, v : Plus(a, Plus(Sojourn(h, M[v][v], T[v]), Moves(h, M, v))), Zero, [v \in 1..Len(T) |-> v])

\* h.ad times the score
ScoreOf(h, st) == FoldLeft(LAMBDA a, u : Plus(a, CfgScore(h, st.T[u], st.M[u])), Zero, [u \in 1..Len(st.T) |-> u])

\* 2*10^-5, and the rounding of the tables (half a unit, as often as a table entry is used)
Tolerance(h, st) ==
    LET uses == FoldLeft(LAMBDA a, u : a + FoldLeft(LAMBDA b, v : b + h.an + h.ad * (st.M[u][v][v] + Len(st.T[u]) + 4), 0, [v \in 1..Len(st.T[u]) |-> v]),
                         0, [u \in 1..Len(st.T) |-> u])
    IN 20000 + (IF uses > 900000 THEN 900000 ELSE uses)
ScoreMatches(h, st, obs) == Close(Times(h.ad, obs), ScoreOf(h, st), Tolerance(h, st))
=============================================================================
