---------------------------- MODULE LogArrayTrace ----------------------------
(* Recorded runs: arrays 1..3 of m positions, all of them read after every step *)
EXTENDS LogArray, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, a
vars == <<t, k, a>>
R == Trace[t]
Op == R.ops[k]
Start(m) == [x \in 1..3 |-> Empty(m)]
Init == t \in 1..Len(Trace) /\ k = 1 /\ a = Start(Trace[t].m)
Seen(b) == /\ Len(Op.all) = 3
           /\ \A x \in 1..3 : Op.all[x] = [i \in 1..R.m |-> b[x][i - 1]]
Step == /\ k <= Len(R.ops)
        /\ LET b == CASE Op.f = "put" -> Put(a, R.m, Op.x, Op.bits, Op.v)
                      [] Op.f = "at" -> [a EXCEPT ![Op.x][Op.i] = Op.v]
                      [] Op.f = "swap" -> Swap(a, Op.x, Op.y)
                      [] Op.f = "look" -> a
           IN /\ Op.f \in {"put", "at", "swap", "look"}
              /\ Op.f = "look" => Op.r = At(a, Op.x, Slot(R.m, Op.bits))
              /\ Seen(b) /\ a' = b
        /\ k' = k + 1 /\ UNCHANGED t
Done == k > Len(R.ops) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
