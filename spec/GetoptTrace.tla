---------------------------- MODULE GetoptTrace ----------------------------
EXTENDS CallTrace, Getopt
Ok == LET e == Trace[t]  p == Asked(e.args) IN
  CASE e.f = "Crash" -> FALSE
    [] OTHER -> /\ e.r = (IF p.fail THEN -1 ELSE 0)
                /\ ~p.fail => [config |-> e.config, pid |-> e.pid, daemon |-> e.daemon] = p.want
=============================================================================
