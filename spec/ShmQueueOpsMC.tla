----------------------------- MODULE ShmQueueOpsMC -----------------------------
(* The specification the recorded histories are judged by, explored on its own: *)
(* two processes, one object each, any call, death at any phase.                *)
EXTENDS ShmQueue
CONSTANTS MaxCalls, Deaths
VARIABLES c, op, calls, dead
Procs == {1, 2}
None == [f |-> "none"]
Calls(p) == {[f |-> "connect", ob |-> p, bs |-> 4, n |-> n, key |-> 0, pend |-> TRUE] : n \in {2, 3}}
   \cup {[f |-> "put", ob |-> p, e |-> <<v, s>>, pend |-> TRUE] : v \in {1}, s \in {2, 5}}
   \cup {[f |-> f, ob |-> p, pend |-> TRUE] : f \in {"flush", "disconnect", "unflush"}}
Init == c = [st |-> Empty(2), ph |-> [p \in Procs |-> 0]] /\ op = [p \in Procs |-> None] /\ calls = 0 /\ dead = {}
Call(p) == op[p] = None /\ p \notin dead /\ calls < MaxCalls /\ calls' = calls + 1 /\ (\E o \in Calls(p) : op' = [op EXCEPT ![p] = o]) /\ UNCHANGED <<c, dead>>
Move(p) == op[p] # None /\ p \notin dead /\ (\E d \in QMoves(op[p], c, p) : c' = d) /\ UNCHANGED <<op, calls, dead>>
Return(p) == c.ph[p] = 1 /\ c' = [c EXCEPT !.ph[p] = 0] /\ op' = [op EXCEPT ![p] = None] /\ UNCHANGED <<calls, dead>>
Die(p) == op[p] # None /\ Cardinality(dead) < Deaths /\ dead' = dead \cup {p} /\ op' = [op EXCEPT ![p] = None] /\ c' = [c EXCEPT !.ph[p] = 0] /\ UNCHANGED calls
Next == \E p \in Procs : Call(p) \/ Move(p) \/ Return(p) \/ Die(p)
Spec == Init /\ [][Next]_<<c, op, calls, dead>>
Idle == \A p \in Procs : op[p] = None
Bounded == c.st.geo # <<>> => Len(c.st.q) <= c.st.geo[2] - 1 /\ \A i \in 1..Len(c.st.q) : Bytes(c.st.q[i]) <= c.st.geo[1]
Counted == c.st.cnt <= Len(c.st.q) /\ (Idle /\ dead = {} => c.st.cnt = Len(c.st.q))
OwnBox == \A o \in DOMAIN c.st.loc : LET l == c.st.loc[o] IN l.next <= Len(l.box) + 1 /\ l.fill = Bytes(SubSeq(l.box, 1, l.next - 1)) /\ Bytes(l.box) <= l.bs
Attached == \A o \in DOMAIN c.st.loc : c.st.loc[o].on => c.st.geo # <<>> /\ c.st.loc[o].bs = c.st.geo[1]
=============================================================================
