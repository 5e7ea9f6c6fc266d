---------------------------- MODULE ImportingMC ----------------------------
(***************************************************************************)
(* Design model: importers read the rows of their trajectories one by one  *)
(* (Read), start a new trajectory (NextTrajectory), finish, are consumed   *)
(* by sample paths, and may start over on another data set, all            *)
(* interleaved.  Checked: what is produced at the grain of single rows is  *)
(* Records of the data set, whatever the history and the interleaving.     *)
(***************************************************************************)
EXTENDS Importing, TLC

CONSTANTS Imps, Rows, MaxTraj, MaxImports

VARIABLES data, im, out, cur, paths, n

vars == <<data, im, out, cur, paths, n>>

RowSet == {<<t, x>> : t \in 0..2, x \in {0, 1}}
Sorted(t) == \A i \in 1..(Len(t) - 1) : t[i][1] <= t[i + 1][1]
TrajSet == {t \in UNION {[1..k -> RowSet] : k \in 1..Rows} : Sorted(t)}
DataSet == {[cols |-> <<"X">>, traj |-> s, vars |-> v, edges |-> <<>>] :
              s \in UNION {[1..k -> TrajSet] : k \in 1..MaxTraj}, v \in {<<>>, <<<<"X", 2>>>>}}

Init == /\ data \in {<<d, [cols |-> <<"X">>, traj |-> <<<< <<0, 1>>, <<2, 0>> >>>>, vars |-> <<<<"X", 2>>>>, edges |-> <<>>]>> :
                        d \in DataSet}
        /\ im = [k \in Imps |-> NewImporter("json", <<1, 2>>)]
        /\ out = [k \in Imps |-> <<>>]
        /\ cur = [k \in Imps |-> <<0, 0>>]
        /\ paths = [k \in Imps |-> <<>>]
        /\ n = 0

Start(k, i) == /\ cur[k] = <<0, 0>> /\ n < MaxImports
               /\ im' = [im EXCEPT ![k] = [Loaded(im[k], data, i, <<>>) EXCEPT !.st = "reading"]]
               /\ out' = [out EXCEPT ![k] = <<>>]
               /\ cur' = [cur EXCEPT ![k] = <<1, 1>>]
               /\ n' = n + 1 /\ UNCHANGED <<data, paths>>

Tr(k) == data[im[k].d].traj

Read(k) == /\ im[k].st = "reading" /\ cur[k][1] <= Len(Tr(k)) /\ cur[k][2] < Len(Tr(k)[cur[k][1]])
           /\ LET t == Tr(k)[cur[k][1]]  i == cur[k][2]
              IN out' = [out EXCEPT ![k] = Append(@, <<t[i + 1][1] - t[i][1], t[i][2], t[i + 1][2]>>)]
           /\ cur' = [cur EXCEPT ![k][2] = @ + 1]
           /\ UNCHANGED <<data, im, paths, n>>

NextTrajectory(k) == /\ im[k].st = "reading" /\ cur[k][1] <= Len(Tr(k)) /\ cur[k][2] >= Len(Tr(k)[cur[k][1]])
                     /\ cur' = [cur EXCEPT ![k] = <<@[1] + 1, 1>>]
                     /\ UNCHANGED <<data, im, out, paths, n>>

EndImport(k) == /\ im[k].st = "reading" /\ cur[k][1] > Len(Tr(k))
                /\ im' = [im EXCEPT ![k].st = "loaded"]
                /\ cur' = [cur EXCEPT ![k] = <<0, 0>>]
                /\ UNCHANGED <<data, out, paths, n>>

BuildPath(k) == /\ im[k].st \in {"new", "loaded", "consumed"} /\ cur[k] = <<0, 0>>
                /\ ~Refused(im[k], data) /\ ~Mismatch(im[k], data)
                /\ paths' = [paths EXCEPT ![k] = out[k]]
                /\ out' = [out EXCEPT ![k] = <<>>]
                /\ im' = [im EXCEPT ![k].st = "consumed"]
                /\ UNCHANGED <<data, cur, n>>

Next == \E k \in Imps : (\E i \in 1..2 : Start(k, i)) \/ Read(k) \/ NextTrajectory(k) \/ EndImport(k) \/ BuildPath(k)
Spec == Init /\ [][Next]_vars

RECURSIVE SumDt(_, _)
SumDt(r, k) == IF k = 0 THEN 0 ELSE SumDt(r, k - 1) + r[k][1]
RECURSIVE SumSpan(_, _)
SumSpan(ts, k) == IF k = 0 THEN 0 ELSE SumSpan(ts, k - 1) + (ts[k][Len(ts[k])][1] - ts[k][1][1])

Exact == \A k \in Imps : im[k].st = "loaded" => out[k] = Records(data[im[k].d], im[k].order)
TimeConserved == \A k \in Imps : im[k].st = "loaded" => SumDt(out[k], Len(out[k])) = SumSpan(Tr(k), Len(Tr(k)))
Chained == \A k \in Imps : \A j \in 1..(Len(out[k]) - 1) :
              \* successive records chain, unless a trajectory ends there
              out[k][j][3] = out[k][j + 1][2] \/ Len(Tr(k)) > 1
Mirrors == \A k \in Imps : im[k].st = "consumed" => paths[k] = Records(data[im[k].d], im[k].order) /\ paths[k] # <<>>
=============================================================================
