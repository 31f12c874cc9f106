------------------------------ MODULE CacheMC ------------------------------
(* Exhaustive design model of the cache; also the source of the operation      *)
(* paths replayed against the implementation (one shortest path per state).    *)
EXTENDS Cache, TLC, Json
CONSTANTS Keys, Sizes, Max, Ttl, MaxNow, MaxVal, MaxHist, EmitPaths
VARIABLES q, now, nv, last, hist, ghost
vars == <<q, now, nv, last, hist, ghost>>
(* ghost: what the property texts talk about, kept independently of q:         *)
(* ghost[k] = [v, born, n] of the most recent set, 0 when never set or erased  *)
None == [v |-> NoVal, born |-> 0, n |-> 0]
Init == /\ q = <<>> /\ now = 0 /\ nv = 1 /\ hist = <<>>
        /\ last = [op |-> "init"] /\ ghost = [k \in Keys |-> None]
H(r) == hist' = Append(hist, r)
Set(k, s, u) ==
  /\ nv <= MaxVal /\ nv' = nv + 1 /\ UNCHANGED now
  /\ q' = SetTo(q, k, nv, s, u, now, Max)
  /\ last' = [op |-> "set", k |-> k, s |-> s, before |-> q]
  /\ ghost' = [ghost EXCEPT ![k] = [v |-> nv, n |-> nv,
                 born |-> IF Present(q, k) /\ ~u THEN @.born ELSE now]]
  /\ H([op |-> "s", k |-> k, s |-> s, u |-> u])
Get(k) ==
  /\ last' = [op |-> "get", k |-> k, r |-> LookUp(q, k, now, Ttl), before |-> q]
  /\ q' = AfterLookUp(q, k, now, Ttl)
  /\ UNCHANGED <<now, nv, ghost>> /\ H([op |-> "g", k |-> k])
Erase(k) ==
  /\ last' = [op |-> "erase", k |-> k, r |-> Present(q, k), before |-> q]
  /\ q' = Without(q, k) /\ UNCHANGED <<now, nv>>
  /\ ghost' = [ghost EXCEPT ![k] = None] /\ H([op |-> "e", k |-> k])
Tick == /\ now < MaxNow /\ now' = now + 1 /\ last' = [op |-> "tick"]
        /\ UNCHANGED <<q, nv, ghost>> /\ H([op |-> "t"])
Next == \/ \E k \in Keys : Get(k) \/ Erase(k) \/ \E s \in Sizes, u \in BOOLEAN : Set(k, s, u)
        \/ Tick
Spec == Init /\ [][Next]_vars
(* ------------------------------- properties ------------------------------- *)
BudgetInv == Bytes(q) <= Max
UniqueInv == \A i, j \in 1..Len(q) : q[i].k = q[j].k => i = j
(* list order is the order of last sets *)
OrderInv == \A i, j \in 1..Len(q) : i < j => ghost[q[i].k].n < ghost[q[j].k].n
LatestInv == \A i \in 1..Len(q) : q[i].v = ghost[q[i].k].v
LookupInv == last.op = "get" =>
  /\ last.r # NoVal => /\ last.r = ghost[last.k].v
                       /\ Ttl = 0 \/ now - ghost[last.k].born <= Ttl
  /\ last.r = NoVal => \/ ~Present(last.before, last.k)
                       \/ Ttl > 0 /\ now - ghost[last.k].born > Ttl
(* eviction: survivors are the newest suffix and one more would not have fit *)
EvictInv == last.op = "set" =>
  LET full == Append(Without(last.before, last.k), 0)      \* 0 stands for the new entry
      dropped == Len(full) - Len(q)
  IN /\ dropped >= 0
     /\ dropped > 0 => LET old == Without(last.before, last.k)
                       IN \/ dropped > Len(old)
                          \/ Bytes(SubSeq(old, dropped, Len(old))) + last.s > Max
EraseInv == last.op = "erase" => (last.r = Present(last.before, last.k)) /\ ~Present(q, last.k)
          /\ \A k \in Keys \ {last.k} : Present(q, k) = Present(last.before, k)
HistBound == Len(hist) <= MaxHist
(* equal up to value names: values only matter by identity *)
View == <<[i \in 1..Len(q) |-> [k |-> q[i].k, s |-> q[i].s,
             age |-> IF Ttl = 0 THEN 0 ELSE IF now - q[i].t > Ttl + 1 THEN Ttl + 1 ELSE now - q[i].t]]>>
DesignView == <<q, now, nv, last, ghost>>
Emit == EmitPaths => PrintT("PATH " \o ToJson(hist))
=============================================================================
