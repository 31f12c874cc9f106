----------------------------- MODULE ShmMapTrace -----------------------------
EXTENDS Lin, ShmMap
StartM(r) == Empty(r.nob)
MovesM(pd, c, p) == MMoves(pd[p], c, p)
DiedM(pd, c, p) == Dead(pd[p], c, p)
NobodyWaits(pd, c, B) == B = {} /\ \A p \in DOMAIN pd : pd[p].f = "none"
=============================================================================
