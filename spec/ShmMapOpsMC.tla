------------------------------ MODULE ShmMapOpsMC ------------------------------
(* The specification the recorded map histories are judged by, explored on its *)
(* own: three processes, one object each, any call, death at any phase.        *)
EXTENDS ShmMap
CONSTANTS MaxCalls, Deaths
VARIABLES c, op, calls, dead
Procs == {1, 2, 3}
None == [f |-> "none"]
Calls(p) == {[f |-> "connect", ob |-> p, geo |-> <<n, 2, 8>>, key |-> 0, pend |-> TRUE, in |-> 0] : n \in {1, 2}}
   \cup {[f |-> f, ob |-> p, kk |-> k, v |-> p, pend |-> TRUE, in |-> 0] : f \in {"insert", "erase"}, k \in {1, 2}}
   \cup {[f |-> f, ob |-> p, pend |-> TRUE, in |-> 0] : f \in {"clear", "lockr", "lockw", "size", "disconnect"}}
On(p, o) == o.f \in {"connect", "disconnect"} \/ c.st.loc[p]
Closing(p) == {[f |-> f, ob |-> p, pend |-> TRUE, in |-> 0] : f \in (IF p \in c.st.rd THEN {"unlockr"} ELSE {}) \cup (IF p \in c.st.wr THEN {"unlockw"} ELSE {})}
Init == c = [st |-> Empty(3), ph |-> [p \in Procs |-> 0]] /\ op = [p \in Procs |-> None] /\ calls = 0 /\ dead = {}
Call(p) == /\ op[p] = None /\ p \notin dead /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<c, dead>>
           /\ \E o \in (IF Closing(p) # {} THEN Closing(p) ELSE {x \in Calls(p) : On(p, x)}) : op' = [op EXCEPT ![p] = o]
Move(p) == op[p] # None /\ p \notin dead /\ (\E d \in MMoves(op[p], c, p) : c' = d) /\ UNCHANGED <<op, calls, dead>>
Return(p) == c.ph[p] = 1 /\ c' = [c EXCEPT !.ph[p] = 0] /\ op' = [op EXCEPT ![p] = None] /\ UNCHANGED <<calls, dead>>
Die(p) == op[p] # None /\ Cardinality(dead) < Deaths /\ dead' = dead \cup {p} /\ (\E d \in Dead(op[p], c, p) : c' = d) /\ op' = [op EXCEPT ![p] = None] /\ UNCHANGED calls
Next == \E p \in Procs : Call(p) \/ Move(p) \/ Return(p) \/ Die(p)
Spec == Init /\ [][Next]_<<c, op, calls, dead>>
Bounded == c.st.geo # <<>> => Cardinality(DOMAIN c.st.m) <= c.st.geo[1]
Alone == Cardinality(c.st.wr) <= 1 /\ (c.st.wr # {} => c.st.rd = {})
HeldByLiving == (c.st.wr \cup c.st.rd) \cap dead = {}
GeoFixed == c.st.geo = <<>> => c.st.m = <<>> /\ \A o \in 1..3 : ~c.st.loc[o]
GeoOnce == [][c.st.geo # <<>> => c'.st.geo = c.st.geo]_<<c, op, calls, dead>>
(* what is in the map was put there by someone; torn only by a death *)
Values == \A k \in DOMAIN c.st.m : c.st.m[k] \in Procs
TornByDeath == c.st.bad => dead # {}
=============================================================================
