-------------------------- MODULE StringStorageTrace --------------------------
(* A run: ud = user data size, len = length of each string of the table, ops.  *)
(* Slot contents are logged as -1 (zero filled), the mark last written, or 999.*)
EXTENDS StringStorage, Integers, Json, IOUtils
MinusOne == -1
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Run == Trace[t]
MF(s) == Run.len[s] + Run.ud <= 4000
CF(s) == Run.len[s] + Run.ud > 4096
TInit == t \in 1..Len(Trace) /\ k = 1 /\ InitWith(Len(Run.len))
Event(e) ==
  CASE e.f = "add" -> Add(e.s, e.r) /\ (Run.ud = 0 \/ (e.r # 0 /\ ~Added(e.s) => e.v = -1))
    [] e.f = "find" -> Find(e.s, e.r)
    [] e.f = "finds" -> (\A i \in 1..Len(e.ss) : e.rs[i] = slot[e.ss[i]]) /\ UNCHANGED <<slot, data>>
    [] e.f = "write" -> Write(e.n, e.v)
    [] e.f = "check" -> IF Run.ud = 0 THEN Len(e.all) = Len(data) /\ UNCHANGED <<slot, data>> ELSE Check(e.all)
    [] e.f = "enum" -> Enumerate(e.calls)
    [] e.f = "free" -> Free
Step == k <= Len(Run.ops) /\ Event(Run.ops[k]) /\ k' = k + 1 /\ t' = t
Done == k > Len(Run.ops) /\ UNCHANGED <<t, k, slot, data>>
Spec == TInit /\ [][Step \/ Done]_<<t, k, slot, data>>
=============================================================================
