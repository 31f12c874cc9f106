------------------------------- MODULE SynqueMC -------------------------------
(* The wake-up protocol itself: with this discipline nobody waits for an       *)
(* element that is there.                                                      *)
EXTENDS Synque
CONSTANTS NProc, MaxElems
VARIABLES c, op
Procs == 1..NProc
Idle == [f |-> "none"]
Calls == {[f |-> "add", v |-> 1], [f |-> "signal"], [f |-> "size", pend |-> FALSE]}
   \cup {[f |-> "get", w |-> w, pend |-> FALSE, r |-> r, o |-> IF r = 0 THEN <<1>> ELSE <<>>] : w \in {0, 1}, r \in {0, -1}}
   \cup {[f |-> "batch", max |-> m, w |-> w, pend |-> FALSE, r |-> 0, o |-> o] : m \in {0, 2}, w \in {0, 1}, o \in {<<1>>, <<1, 1>>}}
Init == c = [st |-> 0, ph |-> [p \in Procs |-> 0]] /\ op = [p \in Procs |-> Idle]
Call(p) == op[p] = Idle /\ \E o \in Calls : (o.f = "add" => c.st < MaxElems) /\ op' = [op EXCEPT ![p] = o] /\ c' = c
Move(p) == op[p] # Idle /\ c.ph[p] # 1 /\ \E d \in Wake(op[p], c, p) : c' = d /\ op' = op
Return(p) == c.ph[p] = 1 /\ c' = [c EXCEPT !.ph[p] = 0] /\ op' = [op EXCEPT ![p] = Idle]
Next == \E p \in Procs : Call(p) \/ Move(p) \/ Return(p)
Spec == Init /\ [][Next]_<<c, op>>
Rel == {p \in Procs : c.ph[p] \in {3, 5}}
NoStarvation == Waiting(c) # {} => c.st <= Cardinality(Rel) + Cardinality({p \in Procs : c.ph[p] = 4})
OnlyWaitersWait == \A p \in Waiting(c) : op[p].w = 1
=============================================================================
