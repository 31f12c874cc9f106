---- MODULE InetTrace ----
EXTENDS CallTrace, Inet
Ok == Trace[t].f = "inet" /\ InetOK(Trace[t])
====
