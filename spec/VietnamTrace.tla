---------------------------- MODULE VietnamTrace ----------------------------
EXTENDS CallTrace, Vietnam

Ok == LET e == Trace[t] IN e.f = "tones" /\ e.out = Strip(e.in) /\ e.again = e.out
=============================================================================
