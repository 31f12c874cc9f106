------------------------------ MODULE UrlTrace ------------------------------
(* Runs over URL objects; every object is observed after every operation.      *)
EXTENDS Url, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, objs
Ops == Trace[t].ops
Init == t \in 1..Len(Trace) /\ k = 1 /\ objs = [i \in 1..Trace[t].n |-> Nothing]
Apply(e) == CASE e.f = "abs" -> CreateAbs(objs[e.i], e.u, e.flags)
              [] e.f = "rel" -> CreateRel(objs[e.i], e.u, e.flags, objs[e.j])
              [] e.f \in {"assign", "copy"} -> <<0, objs[e.j]>>
              [] e.f = "new" -> <<0, Nothing>>
(* creating an object relative to itself empties it first *)
Step ==
  /\ k <= Len(Ops) /\ Ops[k].f # "long"
  /\ LET e == Ops[k] r == Apply(e) want == [objs EXCEPT ![e.i] = r[2]] IN
       /\ e.r = r[1]
       /\ Len(e.obs) = Trace[t].n
       /\ \A i \in 1..Trace[t].n : LET s == e.obs[i] IN
            /\ Same([url |-> s.url, dom |-> s.dom], want[i])
            /\ s.empty = (want[i] = Nothing) /\ s.ulen = Len(s.url) /\ s.dlen = Len(s.dom)
       \* an odd domain is carried on as observed
       /\ objs' = [i \in 1..Trace[t].n |-> [url |-> e.obs[i].url, dom |-> e.obs[i].dom]]
  /\ k' = k + 1 /\ t' = t
(* long texts of known shape are compared by the driver *)
Long == k <= Len(Ops) /\ Ops[k].f = "long" /\ Ops[k].same /\ k' = k + 1 /\ UNCHANGED <<t, objs>>
Done == k > Len(Ops) /\ UNCHANGED <<t, k, objs>>
Spec == Init /\ [][Step \/ Long \/ Done]_<<t, k, objs>>
=============================================================================
