SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Args = {1, 2}
 Calls = 2
 NoArg = NoArg
 Places = {"own"}
 Onces = {"early"}
INVARIANTS NonInterference OneHolder
CHECK_DEADLOCK TRUE
