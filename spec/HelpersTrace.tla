---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Ops == Trace[t].ops
Conts(l) == LET S == SetOf(l) IN [a \in {x.p : x \in S} |-> (CHOOSE x \in S : x.p = a).s]
Init == /\ t \in 1..Len(Trace) /\ k = 1 /\ fs = Tree(Trace[t].tree) /\ cont = Conts(Trace[t].files)
        /\ tab = Tab(Trace[t]) /\ maps = <<>>
Step == k <= Len(Ops) /\ HEvent(Ops[k]) /\ Sees(Ops[k]) /\ k' = k + 1 /\ t' = t
Done == k > Len(Ops) /\ UNCHANGED <<hvars, t, k>>
Spec == Init /\ [][Step \/ Done]_<<hvars, t, k>>
=============================================================================
