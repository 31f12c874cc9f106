---------------------------- MODULE ShmQueueTrace ----------------------------
EXTENDS Lin, ShmQueue
StartQ(r) == Empty(r.nob)
MovesQ(pd, c, p) == QMoves(pd[p], c, p)
NobodyWaits(pd, c, B) == B = {} /\ \A p \in DOMAIN pd : pd[p].f = "none"
=============================================================================
