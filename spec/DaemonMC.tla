------------------------------ MODULE DaemonMC ------------------------------
(* Instances started with the same pid file, each step of loading and stopping *)
(* interleaved; a step may fail, a running process may die.                    *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Faults, Deaths
Inst == 1..N
VARIABLES pc,       \* where each instance is
          dmn,      \* whether it asks for a daemon
          me,       \* which of its processes goes on: 1, or 2 after the fork
          old,      \* how the original ended: "runs", "ok", "gone"
          lead, null, \* leads a session, /dev/null on input and output
          file,     \* <<>> or <<instance, process>>
          faults, deaths
vars == <<pc, dmn, me, old, lead, null, file, faults, deaths>>
None == <<>>
Init == /\ pc = [i \in Inst |-> "start"] /\ dmn \in [Inst -> BOOLEAN] /\ me = [i \in Inst |-> 1] /\ old = [i \in Inst |-> "runs"]
        /\ lead = [i \in Inst |-> FALSE] /\ null = [i \in Inst |-> FALSE] /\ file = None /\ faults = Faults /\ deaths = Deaths
Go(i, a, b) == pc[i] = a /\ pc' = [pc EXCEPT ![i] = b]
Fail(i) == faults > 0 /\ pc[i] \in {"start", "fork", "setsid", "null"} /\ faults' = faults - 1 /\ pc' = [pc EXCEPT ![i] = "failed"]
           /\ UNCHANGED <<dmn, me, old, lead, null, file, deaths>>
Signals(i) == Go(i, "start", IF dmn[i] THEN "fork" ELSE "claim") /\ UNCHANGED <<dmn, me, old, lead, null, file, faults, deaths>>
Fork(i) == Go(i, "fork", "setsid") /\ me' = [me EXCEPT ![i] = 2] /\ old' = [old EXCEPT ![i] = "ok"] /\ UNCHANGED <<dmn, lead, null, file, faults, deaths>>
SetSid(i) == Go(i, "setsid", "null") /\ lead' = [lead EXCEPT ![i] = TRUE] /\ UNCHANGED <<dmn, me, old, null, file, faults, deaths>>
Null(i) == Go(i, "null", "claim") /\ null' = [null EXCEPT ![i] = TRUE] /\ UNCHANGED <<dmn, me, old, lead, file, faults, deaths>>
Claim(i) == /\ IF file = None THEN Go(i, "claim", "runs") /\ file' = <<i, me[i]>> ELSE Go(i, "claim", "failed") /\ UNCHANGED file
            /\ UNCHANGED <<dmn, me, old, lead, null, faults, deaths>>
Stop(i) == Go(i, "runs", "stopped") /\ file' = None /\ UNCHANGED <<dmn, me, old, lead, null, faults, deaths>>
Die(i) == deaths > 0 /\ deaths' = deaths - 1 /\ Go(i, "runs", "dead") /\ UNCHANGED <<dmn, me, old, lead, null, file, faults>>
Again(i) == pc[i] \in {"failed", "stopped"} /\ pc' = [pc EXCEPT ![i] = "start"] /\ me' = [me EXCEPT ![i] = 1] /\ old' = [old EXCEPT ![i] = "runs"]
            /\ lead' = [lead EXCEPT ![i] = FALSE] /\ null' = [null EXCEPT ![i] = FALSE] /\ UNCHANGED <<dmn, file, faults, deaths>>
Next == \E i \in Inst : Fail(i) \/ Signals(i) \/ Fork(i) \/ SetSid(i) \/ Null(i) \/ Claim(i) \/ Stop(i) \/ Die(i) \/ Again(i)
Fair == \A i \in Inst : WF_vars(Signals(i) \/ Fork(i) \/ SetSid(i) \/ Null(i) \/ Claim(i))
Spec == Init /\ [][Next]_vars /\ Fair
OneRuns == Cardinality({i \in Inst : pc[i] = "runs"}) <= 1
NamesIt == \A i \in Inst : pc[i] = "runs" => file = <<i, me[i]>> /\ (dmn[i] => me[i] = 2 /\ old[i] = "ok" /\ lead[i] /\ null[i]) /\ (~dmn[i] => me[i] = 1 /\ old[i] = "runs")
NoLeft == file # None => pc[file[1]] \in {"runs", "dead"}
Loads == \A i \in Inst : pc[i] = "start" ~> pc[i] \in {"runs", "failed"}
=============================================================================
