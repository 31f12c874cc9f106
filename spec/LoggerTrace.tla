----------------------------- MODULE LoggerTrace -----------------------------
EXTENDS Logger, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Ops == Trace[t].ops
Init == /\ t \in 1..Len(Trace) /\ k = 1 /\ fs = Tree(Trace[t].tree) /\ cur = Trace[t].cur /\ level = Trace[t].level
        /\ names = [i \in 1..Len(Trace[t].ids) |-> <<>>]
Step == k <= Len(Ops) /\ LogEvent(Ops[k], Trace[t].ids) /\ k' = k + 1 /\ t' = t
Done == k > Len(Ops) /\ UNCHANGED <<lvars, t, k>>
Spec == Init /\ [][Step \/ Done]_<<lvars, t, k>>
=============================================================================
