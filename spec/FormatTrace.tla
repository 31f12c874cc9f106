---------------------------- MODULE FormatTrace ----------------------------
EXTENDS CallTrace
F == INSTANCE Format
Ok == F!CallOK(Trace[t])
=============================================================================
