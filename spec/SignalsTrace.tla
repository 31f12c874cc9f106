---------------------------- MODULE SignalsTrace ----------------------------
EXTENDS Signals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Ops == Trace[t].ops
S(s) == {s[i] : i \in 1..Len(s)}
Init == t \in 1..Len(Trace) /\ k = 1 /\ SigInit
Event(e) == CASE e.f = "init" -> e.r = 0 /\ SetUp("restart")
              [] e.f = "norestart" -> e.r = 0 /\ SetUp("norestart")
              [] e.f = "before" -> mode = "none" /\ UNCHANGED vars
              [] e.f = "raise" -> Raise(e.s) /\ e.kept     \* what is interrupted finds errno as it was
              [] e.f = "slow" -> Slow(e.s, e.intr)
              [] e.f = "mask" -> Mask(e.how, S(e.set), e.r) /\ e.kept
              [] e.f = "clear" -> Clear(e.n)
              [] e.f = "storm" -> \* many signals during calls into the library, all of them unmasked
                   mode # "none" /\ blocked \cap S(e.set) = {} /\ flags' = flags \cup UNION {Flag(s) : s \in S(e.set)} /\ UNCHANGED <<mode, blocked, pending>>
(* what the process sees after each operation *)
Seen(e) == S(e.flags) = flags' /\ (e.f = "before" \/ mode' = "none" \/ (S(e.blocked) = blocked' /\ S(e.pending) = pending'))
Step == k <= Len(Ops) /\ Event(Ops[k]) /\ Seen(Ops[k]) /\ k' = k + 1 /\ t' = t
Done == k > Len(Ops) /\ UNCHANGED <<vars, t, k>>
Spec == Init /\ [][Step \/ Done]_<<vars, t, k>>
=============================================================================
