----------------------------- MODULE ReproTrace -----------------------------
EXTENDS TraceBase, Repro
\*   seed  x            both random generators were seeded (Python's and numpy's)
\*   do    op err out   an operation with its inputs and options, and what it answered (text)
\* One trace may show several processes one after the other; `repeats' counts answers that could be compared.

RPInit(meta) == {ReproInit}
RPWhy(s, e) ==
    CASE e.a = "seed" -> {}
      [] e.a = "do" -> UNION { IF e.err = "" THEN {} ELSE {"OperationWorks"},
                               IF s.since = <<>> \/ Repeats(s, e.op, e.out) THEN {} ELSE {"SameSeedsSameAnswers"} }
RPSucc(s, e) ==
    IF RPWhy(s, e) # {} THEN {}
    ELSE IF e.a = "seed" THEN {Seeded(s, e.x)}
    ELSE IF e.a = "do" /\ s.since # <<>> THEN {Answered(s, e.op, e.out)}
    ELSE {s}
=============================================================================
