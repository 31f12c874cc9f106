------------------------------ MODULE SynqueTrace ------------------------------
EXTENDS Lin, Synque
StartFifo(r) == <<>>
StartWake(r) == 0
MovesFifo(pd, c, p) == IF c.ph[p] = 0 THEN Fifo(pd[p], c, p) ELSE {}
MovesWake(pd, c, p) == IF c.ph[p] # 1 THEN Wake(pd[p], c, p) ELSE {}
AnyQuiet(pd, c, B) == TRUE
InWait(c, p) == c.ph[p] = 2
(* everything stands still: exactly the waiting consumers are blocked *)
WaitQuiet(pd, c, B) == Pending(pd) = B /\ \A p \in B : c.ph[p] = 2
=============================================================================
