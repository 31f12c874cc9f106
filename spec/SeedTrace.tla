------------------------------ MODULE SeedTrace ------------------------------
(* Recorded processes.  Before each call the generator's continuation (pred)   *)
(* is noted, after it as many numbers are drawn.                               *)
EXTENDS Seed, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, seeded
vars == <<t, k, seeded>>
R == Trace[t]
Op == R.ops[k]
Init == t \in 1..Len(Trace) /\ k = 1 /\ seeded = FALSE
Call == /\ Op.f = "init" /\ Op.left = 0
        /\ \E o \in Outcomes(seeded, Op.fault = 0) :
             /\ Op.r = o[1] /\ seeded' = o[2]
             /\ o[3] = (Op.draw # Op.pred)
Draw == Op.f = "draw" /\ Op.draw = Op.pred /\ UNCHANGED seeded
Step == k <= Len(R.ops) /\ (Call \/ Draw) /\ k' = k + 1 /\ UNCHANGED t
Done == k > Len(R.ops) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* no two processes are on the same sequence
Firsts(r) == {i \in 1..Len(r.ops) : r.ops[i].f = "init" /\ r.ops[i].r = 0}
Lucky == {j \in 1..Len(Trace) : Firsts(Trace[j]) # {}}
First(r) == r.ops[CHOOSE i \in Firsts(r) : \A j \in Firsts(r) : i <= j].draw
ASSUME Cardinality({First(Trace[j]) : j \in Lucky}) = Cardinality(Lucky)
=============================================================================
