-------------------------------- MODULE PoolMC --------------------------------
EXTENDS Pool
Init == N \in 1..4 /\ out = {} /\ stk = <<>>
Next == \/ \E r \in (0..4 \cup {Fail}) : Allocate(r) \/ Count(r) \/ Used(r)
        \/ \E i \in 0..4 : Release(i, TRUE)
        \/ \E v \in {7, 8}, r \in BOOLEAN : Push(v, r)
        \/ \E v \in {7, 8} : Pop(v)
        \/ ClearPool \/ ClearStack
Spec == Init /\ [][Next]_vars
NeverTwice == [][\A i \in 0..4 : i \in out => (i \in out' \/ out' = {} \/ out' = out \ {i})]_vars
=============================================================================
