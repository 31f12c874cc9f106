------------------------------- MODULE Cache -------------------------------
(* coda_cache (coda/cache.hpp, coda/cache.tcc): a map bounded in bytes whose   *)
(* entries are ordered by their last set and expire ttl seconds after their    *)
(* creation or refresh.  Properties C01 (budget, eviction order) and C02       *)
(* (lookups, expiry, erase).                                                   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS NoVal                       \* what a missed lookup yields

(* ---- operators shared by the design model and the trace specifications ---- *)
Present(q, k) == \E i \in 1..Len(q) : q[i].k = k
At(q, k)      == q[CHOOSE i \in 1..Len(q) : q[i].k = k]
Without(q, k) == SelectSeq(q, LAMBDA e : e.k # k)
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE Head(q).s + Bytes(Tail(q))
(* drop the oldest-set entries, no more of them than necessary *)
RECURSIVE Fit(_, _)
Fit(q, max) == IF Bytes(q) <= max THEN q ELSE Fit(Tail(q), max)
Expired(e, now, ttl) == ttl > 0 /\ e.t + ttl < now
(* an update is the newest set, but keeps its time unless told to refresh it *)
SetTo(q, k, v, s, refresh, now, max) ==
  LET t == IF Present(q, k) /\ ~refresh THEN At(q, k).t ELSE now
  IN Fit(Append(Without(q, k), [k |-> k, v |-> v, s |-> s, t |-> t]), max)
LookUp(q, k, now, ttl) ==
  IF Present(q, k) /\ ~Expired(At(q, k), now, ttl) THEN At(q, k).v ELSE NoVal
AfterLookUp(q, k, now, ttl) ==
  IF Present(q, k) /\ Expired(At(q, k), now, ttl) THEN Without(q, k) ELSE q
=============================================================================
