----------------------------- MODULE CacheTrace -----------------------------
EXTENDS TraceBase, CacheSpec
KeyOf(e) == {e.key[i] : i \in DOMAIN e.key}
CAInit(meta) == {EmptyCache}
CAWhy(m, e) ==
    IF e.err # "" THEN {"NoError"}
    ELSE IF e.a = "find" /\ e.got \notin MayFind(m, KeyOf(e)) THEN {"FindReturnsWhatWasStored"} ELSE {}
CASucc(m, e) ==
    IF CAWhy(m, e) # {} THEN {}
    ELSE CASE e.a = "put" -> {AfterPut(m, KeyOf(e), e.val)}
           [] e.a = "clear" -> {EmptyCache}
           [] OTHER -> {m}
=============================================================================
