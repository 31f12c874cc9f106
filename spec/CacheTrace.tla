----------------------------- MODULE CacheTrace -----------------------------
(* Runs recorded from coda_cache, one per line, checked event by event.        *)
(* Judge = "C01": budget, counters, eviction order; expiry is taken as         *)
(*                observed.  Judge = "C02": results of lookups, erase and      *)
(*                expiry; which entries a set under pressure evicts is taken   *)
(*                as observed.                                                 *)
EXTENDS Cache, TLC, Json, IOUtils
CONSTANT Judge
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, q, now
vars == <<t, k, q, now>>
Run == Trace[t]
Op == Run.ops[k]
Init == t \in 1..Len(Trace) /\ k = 1 /\ q = <<>> /\ now = 0
Count(n) == Op.ne = n
More == k <= Len(Run.ops) /\ k' = k + 1 /\ UNCHANGED t
(* ------------------------------- C01 ------------------------------------- *)
Counters == Op.ne = Len(q') /\ Op.sc = Bytes(q') /\ Bytes(q') <= Run.max
Set1 == Op.op = "set" /\ q' = SetTo(q, Op.k, Op.v, Op.s, Op.u, now, Run.max) /\ UNCHANGED now
Get1 == /\ Op.op = "get" /\ UNCHANGED now
        /\ IF Op.v # NoVal THEN Present(q, Op.k) /\ At(q, Op.k).v = Op.v /\ q' = q
           ELSE /\ Present(q, Op.k) => Run.ttl > 0      \* can only be expiry
                /\ q' = Without(q, Op.k)
Erase1 == Op.op = "erase" /\ Op.r = Present(q, Op.k) /\ q' = Without(q, Op.k) /\ UNCHANGED now
Tick1 == Op.op = "tick" /\ now' = now + Op.n /\ q' = q
C01 == (Set1 \/ Get1 \/ Erase1 \/ Tick1) /\ Counters
(* ------------------------------- C02 ------------------------------------- *)
(* entries carry a flag: may have been evicted meanwhile *)
Set2 == /\ Op.op = "set" /\ UNCHANGED now
        /\ LET old == Present(q, Op.k)
               \* an update of an entry that may be gone may have started a new lifetime
               keep == old /\ ~Op.u
               \* (the clock may have been set back meanwhile: t is the earliest possible time, t2 the latest)
               sure == keep /\ ~At(q, Op.k).may
               e == [k |-> Op.k, v |-> Op.v, s |-> Op.s,
                     t |-> IF sure \/ (keep /\ At(q, Op.k).t < now) THEN At(q, Op.k).t ELSE now,
                     t2 |-> IF sure \/ (keep /\ At(q, Op.k).t2 > now) THEN At(q, Op.k).t2 ELSE now, may |-> FALSE]
               n == Append(Without(q, Op.k), e)
               press == Bytes(n) > Run.max
           IN q' = [i \in 1..Len(n) |-> [n[i] EXCEPT !.may = @ \/ press]]
Get2 == /\ Op.op = "get" /\ UNCHANGED now
        /\ IF Op.v # NoVal
           THEN /\ Present(q, Op.k) /\ At(q, Op.k).v = Op.v
                /\ Run.ttl > 0 => At(q, Op.k).t2 + Run.ttl >= now
                /\ q' = [i \in 1..Len(q) |-> IF q[i].k = Op.k THEN [q[i] EXCEPT !.may = FALSE] ELSE q[i]]
           ELSE /\ Present(q, Op.k) => At(q, Op.k).may \/ (Run.ttl > 0 /\ At(q, Op.k).t + Run.ttl < now)
                /\ q' = Without(q, Op.k)
Erase2 == /\ Op.op = "erase" /\ UNCHANGED now /\ q' = Without(q, Op.k)
          /\ Op.r => Present(q, Op.k)
          /\ ~Op.r => (Present(q, Op.k) => At(q, Op.k).may)
Tick2 == Op.op = "tick" /\ now' = now + Op.n /\ q' = q
C02 == Set2 \/ Get2 \/ Erase2 \/ Tick2
Next == More /\ IF Judge = "C01" THEN C01 ELSE C02
Done == k > Len(Run.ops) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
