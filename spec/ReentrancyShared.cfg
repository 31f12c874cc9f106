SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Args = {1, 2}
 Calls = 2
 NoArg = NoArg
 Places = {"shared"}
 Onces = {"before"}
INVARIANTS NonInterference OneHolder
CHECK_DEADLOCK TRUE
