-------------------------------- MODULE Lin --------------------------------
(* Histories of concurrent operations judged against a sequential              *)
(* specification: the state is the set of all configurations (abstract state   *)
(* plus how far each pending operation is) that explain the events so far.     *)
(* No configuration left = the history has no explanation.                     *)
(* An operation's result is attached to its invocation event (pend = TRUE if   *)
(* it never returned).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Start(_),          \* run -> initial abstract state
          Moves(_, _, _),    \* pend, configuration, p -> configurations after one step of p's pending operation
          Died(_, _, _),     \* pend, configuration, p -> configurations after the death of p
          QuietOK(_, _, _),  \* pend, configuration, blocked set -> may everything stand still here?
          WaitOK(_, _)       \* configuration, p -> may p have begun to wait here?
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, pend, cfgs
vars == <<t, k, pend, cfgs>>
None == [f |-> "none"]
Ev == Trace[t].ev
Init == /\ t \in 1..Len(Trace) /\ k = 1
        /\ pend = [p \in 1..Trace[t].n |-> None]
        /\ cfgs = {[st |-> Start(Trace[t]), ph |-> [p \in 1..Trace[t].n |-> 0]]}
RECURSIVE Close(_, _, _)
Close(pd, new, all) ==
  LET nx == UNION {Moves(pd, c, p) : c \in new, p \in {q \in DOMAIN pd : pd[q].f # "none"}} \ all
  IN IF nx = {} THEN all ELSE Close(pd, nx, all \cup nx)
Idle(p) == /\ pend' = [pend EXCEPT ![p] = None]
AnyWait(c, p) == TRUE
PlainDeath(pd, c, p) == {[c EXCEPT !.ph[p] = 0]}
Clear(c, p) == [c EXCEPT !.ph[p] = 0]
Step ==
  /\ k <= Len(Ev)
  /\ LET e == Ev[k] IN
       CASE e.k = "i" -> pend[e.p] = None /\ pend' = [pend EXCEPT ![e.p] = e] /\ cfgs' = cfgs
         [] e.k = "r" -> /\ cfgs' = {Clear(c, e.p) : c \in {x \in Close(pend, cfgs, cfgs) : x.ph[e.p] = 1}}
                         /\ Idle(e.p)
         [] e.k = "x" -> /\ cfgs' = UNION {Died(pend, c, e.p) : c \in Close(pend, cfgs, cfgs)} /\ Idle(e.p)
         [] e.k = "q" -> /\ cfgs' = {c \in Close(pend, cfgs, cfgs) : QuietOK(pend, c, {e.b[i] : i \in 1..Len(e.b)})}
                         /\ pend' = pend
         [] e.k = "w" -> /\ cfgs' = {c \in Close(pend, cfgs, cfgs) : WaitOK(c, e.p)}
                         /\ pend' = pend
         [] OTHER -> FALSE
  /\ cfgs' # {}
  /\ k' = k + 1 /\ t' = t
Done == k > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
Pending(pd) == {p \in DOMAIN pd : pd[p].f # "none"}
=============================================================================
