----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Generic trace validation.  The file IOEnv.TRACE holds a sequence of     *)
(* traces [meta, ev]; every trace starts in one of TInit(meta) and every   *)
(* event e must be explained by some state s that the specification        *)
(* allows: TSucc(s, e) is the set of states after e (empty: e is not a     *)
(* step of the specification from s).  `sts' is the set of all             *)
(* specification states that explain the trace so far (subset              *)
(* construction), so unlogged choices need no hints.  An event no state    *)
(* explains is recorded in `bad' with the clauses of TWhy(s, e) that       *)
(* failed, and validation goes on with the next trace: the verdict is      *)
(* total.  It is written to IOEnv.VERDICT by the last step.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_), TSucc(_, _), TWhy(_, _)

VARIABLES tr, pos, sts, bad

tbvars == <<tr, pos, sts, bad>>

Traces == JsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)

TBInit == tr = 1 /\ pos = 0 /\ sts = {} /\ bad = <<>>

Begin == /\ tr <= NTraces /\ pos = 0
         /\ sts' = TInit(Traces[tr].meta)
         /\ pos' = 1
         /\ UNCHANGED <<tr, bad>>

Advance == /\ tr <= NTraces /\ pos > 0 /\ pos <= Len(Traces[tr].ev)
           /\ LET e == Traces[tr].ev[pos]
                  ns == IF e.a = "died" THEN {} ELSE UNION {TSucc(s, e) : s \in sts}
              IN  IF ns # {}
                  THEN sts' = ns /\ pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
                  ELSE /\ bad' = Append(bad, [tr |-> tr, pos |-> pos,
                                   why |-> IF e.a = "died" THEN {"TerminatesWithoutError"}
                                           ELSE UNION {TWhy(s, e) : s \in sts}])
                       /\ tr' = tr + 1 /\ pos' = 0 /\ sts' = {}

EndTrace == /\ tr <= NTraces /\ pos > Len(Traces[tr].ev)
            /\ tr' = tr + 1 /\ pos' = 0 /\ sts' = {} /\ UNCHANGED bad

Finish == /\ tr = NTraces + 1 /\ pos = 0
          /\ JsonSerialize(IOEnv.VERDICT, [traces |-> NTraces, bad |-> bad])
          /\ pos' = 1 /\ UNCHANGED <<tr, sts, bad>>

TBNext == Begin \/ Advance \/ EndTrace \/ Finish
TBSpec == TBInit /\ [][TBNext]_tbvars
=============================================================================
