---------------------------- MODULE DaemonTrace ----------------------------
EXTENDS Daemon, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Ops == Trace[t].ops
Conts(l) == LET S == SetOf(l) IN [a \in {x.p : x \in S} |-> (CHOOSE x \in S : x.p = a).s]
Init == /\ t \in 1..Len(Trace) /\ k = 1 /\ fs = Tree(Trace[t].tree) /\ cont = Conts(Trace[t].files)
        /\ tab = Tab(Trace[t]) /\ who = [pid |-> Trace[t].pid, sid |-> Trace[t].sid] /\ past = {} /\ caught = SetOf(Trace[t].caught) /\ um = SetOf(Trace[t].um)
Step == k <= Len(Ops) /\ Sees(Ops[k]) /\ DEvent(Ops[k]) /\ k' = k + 1 /\ t' = t
End == k = Len(Ops) + 1 /\ Ended(Trace[t]) /\ k' = k + 1 /\ UNCHANGED <<dvars, t>>
Done == k = Len(Ops) + 2 /\ UNCHANGED <<dvars, t, k>>
Spec == Init /\ [][Step \/ End \/ Done]_<<dvars, t, k>>
=============================================================================
