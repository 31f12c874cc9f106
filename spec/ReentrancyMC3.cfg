SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 Args = {1, 2}
 Calls = 2
 NoArg = NoArg
 Places = {"own", "locked"}
 Onces = {"before", "locked"}
INVARIANTS NonInterference OneHolder
CHECK_DEADLOCK TRUE
