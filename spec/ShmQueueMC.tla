------------------------------ MODULE ShmQueueMC ------------------------------
(* The protocol behind ShmQueue, one shared access per step, with death at any *)
(* step: lock with undo, two-part copies, ring positions, published count.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Writers, Readers, PerWriter, PerReader, Deaths
VARIABLES slot, start, end, cnt, lock, pc, buf, todo, alive, accepted, taken, deaths
vars == <<slot, start, end, cnt, lock, pc, buf, todo, alive, accepted, taken, deaths>>
Procs == Writers \cup Readers
Id(p) == p * 10 + todo[p]
Init == /\ slot = [i \in 0..N-1 |-> <<0, 0>>] /\ start = 0 /\ end = 0 /\ cnt = 0 /\ lock = 0
        /\ pc = [p \in Procs |-> "idle"] /\ buf = [p \in Procs |-> <<0, 0>>] /\ alive = Procs
        /\ todo = [p \in Procs |-> IF p \in Writers THEN PerWriter ELSE PerReader] /\ accepted = <<>> /\ taken = <<>> /\ deaths = 0
At(p, l) == p \in alive /\ pc[p] = l
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Un(v) == UNCHANGED v
Acquire(p, from, to) == At(p, from) /\ lock = 0 /\ lock' = p /\ Go(p, to)
Release(p, from, to) == At(p, from) /\ lock' = 0 /\ Go(p, to)
Writer(p) ==
  \/ todo[p] > 0 /\ Acquire(p, "idle", "w1") /\ Un(<<slot, start, end, cnt, buf, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "w1") /\ Un(<<start, end, cnt, lock, buf, todo, alive, accepted, taken, deaths>>)
     /\ IF (end + 1) % N = start THEN Go(p, "w5") /\ Un(slot) ELSE Go(p, "w2") /\ slot' = [slot EXCEPT ![end][1] = Id(p)]
  \/ At(p, "w2") /\ slot' = [slot EXCEPT ![end][2] = Id(p)] /\ Go(p, "w3") /\ Un(<<start, end, cnt, lock, buf, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "w3") /\ end' = (end + 1) % N /\ accepted' = Append(accepted, Id(p)) /\ Go(p, "w4") /\ Un(<<slot, start, cnt, lock, buf, todo, alive, taken, deaths>>)
  \/ At(p, "w4") /\ cnt' = cnt + 1 /\ Go(p, "w5") /\ Un(<<slot, start, end, lock, buf, todo, alive, accepted, taken, deaths>>)
  \/ Release(p, "w5", "idle") /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ Un(<<slot, start, end, cnt, buf, alive, accepted, taken, deaths>>)
Reader(p) ==
  \/ At(p, "idle") /\ todo[p] > 0 /\ cnt > 0 /\ cnt' = cnt - 1 /\ Go(p, "r1") /\ Un(<<slot, start, end, lock, buf, todo, alive, accepted, taken, deaths>>)
  \/ Acquire(p, "r1", "r2") /\ Un(<<slot, start, end, cnt, buf, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "r2") /\ buf' = [buf EXCEPT ![p][1] = slot[start][1]] /\ Go(p, "r3") /\ Un(<<slot, start, end, cnt, lock, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "r3") /\ buf' = [buf EXCEPT ![p][2] = slot[start][2]] /\ Go(p, "r4") /\ Un(<<slot, start, end, cnt, lock, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "r4") /\ start' = (start + 1) % N /\ taken' = Append(taken, buf[p]) /\ Go(p, "r5") /\ Un(<<slot, end, cnt, lock, buf, todo, alive, accepted, deaths>>)
  \/ At(p, "r5") /\ slot' = [slot EXCEPT ![(start + N - 1) % N][1] = 0] /\ Go(p, "r6") /\ Un(<<start, end, cnt, lock, buf, todo, alive, accepted, taken, deaths>>)
  \/ At(p, "r6") /\ slot' = [slot EXCEPT ![(start + N - 1) % N][2] = 0] /\ Go(p, "r7") /\ Un(<<start, end, cnt, lock, buf, todo, alive, accepted, taken, deaths>>)
  \/ Release(p, "r7", "idle") /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ Un(<<slot, start, end, cnt, buf, alive, accepted, taken, deaths>>)
Die(p) == /\ deaths < Deaths /\ p \in alive /\ pc[p] # "idle" /\ deaths' = deaths + 1 /\ alive' = alive \ {p}
          /\ lock' = (IF lock = p THEN 0 ELSE lock) /\ Un(<<slot, start, end, cnt, pc, buf, todo, accepted, taken>>)
Next == \E p \in Procs : (p \in Writers /\ Writer(p)) \/ (p \in Readers /\ Reader(p)) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars((p \in Writers /\ Writer(p)) \/ (p \in Readers /\ Reader(p)))
Held == (end - start + N) % N
(* every box handed out is whole, and they come in the order they were accepted, without gaps *)
InOrder == Len(taken) <= Len(accepted) /\ \A i \in 1..Len(taken) : taken[i] = <<accepted[i], accepted[i]>>
CountBelow == cnt <= Held
Exact == (deaths = 0 /\ \A p \in Procs : pc[p] = "idle") => cnt = Held
Bounded == Held <= N - 1 /\ Held = Len(accepted) - Len(taken)
LockedByLiving == lock = 0 \/ lock \in alive
(* whoever is inside an operation comes out of it, or dies *)
Finishes == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle" \/ p \notin alive)
=============================================================================
