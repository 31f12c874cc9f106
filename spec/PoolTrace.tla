------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
MinusOne == -1
VARIABLES t, k
Ops == Trace[t].ops
Init == t \in 1..Len(Trace) /\ k = 1 /\ N = Trace[t].n /\ out = {} /\ stk = <<>>
Event(e) == CASE e.f = "alloc" -> Allocate(e.r)
              [] e.f = "free" -> Release(e.i, e.r)
              [] e.f = "count" -> Count(e.r)
              [] e.f = "pclear" -> ClearPool
              [] e.f = "push" -> Push(e.v, e.r)
              [] e.f = "pop" -> Pop(e.r)
              [] e.f = "used" -> Used(e.r)
              [] e.f = "empty" -> Empty(e.r)
              [] e.f = "sclear" -> ClearStack
              [] e.f = "attach" -> Attach(e.same, e.raised)
Step == k <= Len(Ops) /\ Event(Ops[k]) /\ k' = k + 1 /\ t' = t
Done == k > Len(Ops) /\ UNCHANGED <<vars, t, k>>
Spec == Init /\ [][Step \/ Done]_<<vars, t, k>>
=============================================================================
