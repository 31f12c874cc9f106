--------------------------- MODULE ResourcesTrace ---------------------------
(* Recorded uses.  Every step says what the process held before (a) and after *)
(* (u) it: bytes, descriptors, file mappings, attachments.  A use is repeated *)
(* with the same inputs; after the first two rounds (libraries keep caches)   *)
(* every round must end with the same memory, and always with the handles of  *)
(* the beginning.                                                             *)
EXTENDS Resources, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, held, base, mem
vars == <<t, k, held, base, mem>>
Rec == Trace[t]
E == Rec.ops[k]
H(x) == <<x[2], x[3], x[4]>>
Init == t \in 1..Len(Trace) /\ k = 1 /\ held = <<>> /\ base = <<>> /\ mem = <<>>
Warm == Len(mem) >= 2
Same == Warm /\ Rec.exact = 1 => E.u[1] = E.a[1]      \* nothing was allocated
Keep == UNCHANGED held
Begin == E.f = "begin" /\ base = <<>> /\ base' = H(E.u) /\ Keep /\ UNCHANGED mem
Open == /\ E.f = "open"
        /\ IF E.ok = 1 THEN H(E.u) = Plus(H(E.a), Takes(E.what)) /\ held' = Append(held, <<E.id, E.what>>)
                       ELSE H(E.u) = H(E.a) /\ Same /\ Keep
Without(s, ids) == SelectSeq(s, LAMBDA x : x[1] \notin ids)
Has(id) == \E i \in 1..Len(held) : held[i][1] = id
Close == /\ E.f = "close" /\ E.ok = 1 /\ Has(E.id)
         /\ H(E.u) = Minus(H(E.a), Takes(E.what)) /\ held' = Without(held, {E.id})
\* an object and the attachment it has
Close2 == /\ E.f = "close2" /\ Has(E.id) /\ Has(E.ok)
          /\ H(E.u) = Minus(H(E.a), Takes(E.what)) /\ held' = Without(held, {E.id, E.ok})
Use == E.f \in {"use", "start"} /\ H(E.u) = H(E.a) /\ Keep
Call == E.f = "step" /\ H(E.u) = H(E.a) /\ Same /\ Keep
\* a descriptor takes the place of another
Lose == E.f = "lose" /\ H(E.u) = Minus(H(E.a), Takes(E.what)) /\ Same /\ Keep
Step == /\ k <= Len(Rec.ops) /\ (Open \/ Close \/ Close2 \/ Use \/ Call \/ Lose)
        /\ k' = k + 1 /\ UNCHANGED <<t, base, mem>>
Start == k <= Len(Rec.ops) /\ Begin /\ k' = k + 1 /\ UNCHANGED t
Rest == /\ k <= Len(Rec.ops) /\ E.f = "rest" /\ held = <<>> /\ H(E.u) = base
        /\ (Warm => E.u[1] = mem[2])
        /\ mem' = Append(mem, E.u[1]) /\ k' = k + 1 /\ UNCHANGED <<t, held, base>>
Done == k > Len(Rec.ops) /\ UNCHANGED vars
Next == Start \/ Step \/ Rest \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
