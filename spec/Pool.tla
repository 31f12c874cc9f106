-------------------------------- MODULE Pool --------------------------------
(* C13.  A pool of N slots and a stack of capacity N in memory that outlives   *)
(* the objects attached to it.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fail
VARIABLES N, out, stk
vars == <<N, out, stk>>
Allocate(r) == \/ /\ Cardinality(out) < N /\ r \in (0..(N - 1)) \ out
                  /\ out' = out \cup {r} /\ UNCHANGED <<N, stk>>
               \/ /\ Cardinality(out) = N /\ r = Fail /\ UNCHANGED vars
(* only an index that is out may be given back *)
Release(i, r) == i \in out /\ r = TRUE /\ out' = out \ {i} /\ UNCHANGED <<N, stk>>
Count(r) == r = Cardinality(out) /\ UNCHANGED vars
ClearPool == out' = {} /\ UNCHANGED <<N, stk>>
Push(v, r) == \/ Len(stk) < N /\ r = TRUE /\ stk' = Append(stk, v) /\ UNCHANGED <<N, out>>
              \/ Len(stk) = N /\ r = FALSE /\ UNCHANGED vars
Pop(r) == Len(stk) > 0 /\ r = stk[Len(stk)] /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED <<N, out>>
Used(r) == r = Len(stk) /\ UNCHANGED vars
Empty(r) == r = (stk = <<>>) /\ UNCHANGED vars
ClearStack == stk' = <<>> /\ UNCHANGED <<N, out>>
(* attaching changes nothing; it raises exactly when the dimensions differ *)
Attach(same, raised) == raised = ~same /\ UNCHANGED vars
Bounds == out \subseteq 0..(N - 1) /\ Len(stk) <= N
=============================================================================
