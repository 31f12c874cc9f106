------------------------------ MODULE Signals ------------------------------
(* Signal set-up of a daemon (Linux numbers): which signals are handled, what  *)
(* each one's delivery does, what masking does.                                *)
EXTENDS Integers, FiniteSets
Handled == {1, 2, 3, 5, 10, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31}
Flag(s) == CASE s \in {2, 15} -> {"terminate"} [] s = 1 -> {"changecfg"} [] s = 10 -> {"rotatelog"} [] s = 12 -> {"changebin"} [] OTHER -> {}
Names == {"terminate", "changecfg", "rotatelog", "changebin"}
Stops == {20, 21, 22}
VARIABLES mode,      \* "restart" or "norestart" (the last set-up)
          blocked, pending, flags
vars == <<mode, blocked, pending, flags>>
SigInit == mode = "none" /\ blocked = {} /\ pending = {} /\ flags = {}
SetUp(m) == mode' = m /\ UNCHANGED <<blocked, pending, flags>>
(* a stop signal wipes out a pending continue and the reverse *)
Wiped(s, pd) == IF s = 18 THEN pd \ Stops ELSE IF s \in Stops THEN pd \ {18} ELSE pd
Raise(s) == /\ mode # "none" /\ s \in Handled
            /\ IF s \in blocked THEN pending' = Wiped(s, pending) \cup {s} /\ flags' = flags
                                ELSE pending' = Wiped(s, pending) /\ flags' = flags \cup Flag(s)
            /\ UNCHANGED <<mode, blocked>>
(* during a slow call: interrupted or restarted *)
Slow(s, intr) == Raise(s) /\ (intr <=> s \notin blocked /\ mode = "norestart")
Mask(how, set, r) ==
  LET m == set \cap Handled
      b == CASE how = "block" -> blocked \cup m [] how = "unblock" -> blocked \ m [] how = "set" -> m [] OTHER -> blocked
      del == pending \ b IN
  /\ mode # "none" /\ r = (IF how \in {"block", "unblock", "set"} THEN 0 ELSE -1)
  /\ blocked' = b /\ pending' = pending \ del /\ flags' = flags \cup UNION {Flag(s) : s \in del}
  /\ UNCHANGED mode
(* the program takes note of a flag *)
Clear(n) == flags' = flags \ {n} /\ UNCHANGED <<mode, blocked, pending>>
=============================================================================
