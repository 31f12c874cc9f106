---------------------------- MODULE PidFileTrace ----------------------------
EXTENDS Lin, PidFile
StartP(r) == PStart(r.file)
MovesP(pd, c, p) == PMoves(pd[p], c, p)
DiedP(pd, c, p) == PDeath(c, p)
(* nobody waits for anything, nothing is left behind *)
NobodyWaits(pd, c, B) == B = {} /\ (\A p \in DOMAIN pd : pd[p].f = "none") /\ c.st.holder = 0
=============================================================================
