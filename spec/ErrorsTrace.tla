----------------------------- MODULE ErrorsTrace -----------------------------
EXTENDS CallTrace
E == INSTANCE Errors
Ok == E!ErrorOK(Trace[t])
=============================================================================
