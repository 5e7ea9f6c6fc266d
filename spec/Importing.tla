----------------------------- MODULE Importing -----------------------------
(***************************************************************************)
(* Importers and sample paths.                                             *)
(*                                                                         *)
(* A data set is [cols, traj, vars, edges]: the column labels, a sequence  *)
(* of trajectories (each a sequence of rows <<time, x_1, ..., x_n>>), the  *)
(* variables <<label, cardinality>> and the prior edges <<from, to>>.      *)
(*                                                                         *)
(* An importer goes through  "new" -Import-> "loaded" -Build-> "consumed"  *)
(* (-Import-> "loaded" ...).  What Import yields is a function of the data *)
(* set (and the requested column order) alone; a sample path mirrors it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RangeOf(s) == {s[i] : i \in DOMAIN s}

\* position of a label among the columns
ColOf(cols, l) == CHOOSE j \in 1..Len(cols) : cols[j] = l

\* the states of a row in the order `order'
StateOf(cols, order, row) == [j \in 1..Len(order) |-> row[1 + ColOf(cols, order[j])]]

\* one record per pair of consecutive rows: <<elapsed time>> \o state before \o state after
PairsOf(cols, order, t) ==
    [i \in 1..(Len(t) - 1) |->
        <<t[i + 1][1] - t[i][1]>> \o StateOf(cols, order, t[i]) \o StateOf(cols, order, t[i + 1])]

RECURSIVE Concat(_, _)
Concat(ss, k) == IF k = 0 THEN <<>> ELSE Concat(ss, k - 1) \o ss[k]

\* A data set may list its trajectories in short: every one is then its rows repeated `rep' times, `gap' ticks apart.
\* The records of such a trajectory as a sequence of runs <<records, how often>>.
Joint(d, order, t) == <<d.gap>> \o StateOf(d.cols, order, t[Len(t)]) \o StateOf(d.cols, order, t[1])
RunsOf(d, order, t) ==
    LET p == PairsOf(d.cols, order, t)
    IN IF d.rep = 1 THEN <<<<p, 1>>>> ELSE <<<<p \o <<Joint(d, order, t)>>, d.rep - 1>>, <<p, 1>>>>
InShort(d) == "rep" \in DOMAIN d
Runs(d, order) == Concat([k \in 1..Len(d.traj) |-> RunsOf(d, order, d.traj[k])], Len(d.traj))

Records(d, order) == Concat([k \in 1..Len(d.traj) |-> PairsOf(d.cols, order, d.traj[k])], Len(d.traj))

\* ------------------------------------------------------------ importers
\* state of an importer: [st, ds, kind, d, order]   (ds: the indexes of the data sets it can import)
NewImporter(kind, ds) == [st |-> "new", kind |-> kind, ds |-> ds, d |-> 0, order |-> <<>>]

OrderFor(data, d, header) == IF header = <<>> THEN data[d].cols ELSE header

Loaded(im, data, i, header) ==
    [im EXCEPT !.st = "loaded", !.d = im.ds[i], !.order = OrderFor(data, im.ds[i], header)]

\* what a sample path must refuse: nothing imported, no variables, no records left
Refused(im, data) ==
    \/ im.st # "loaded"
    \/ data[im.d].vars = <<>>
    \/ Records(data[im.d], im.order) = <<>>

Mismatch(im, data) == im.order # [j \in 1..Len(data[im.d].vars) |-> data[im.d].vars[j][1]]
=============================================================================
