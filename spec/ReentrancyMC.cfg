SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Args = {1, 2}
 Calls = 2
 NoArg = NoArg
 Places = {"own", "locked"}
 Onces = {"before", "locked"}
INVARIANTS NonInterference OneHolder
PROPERTY AllReturn
CHECK_DEADLOCK TRUE
