------------------------------- MODULE ShmMapMC -------------------------------
(* The two-semaphore read/write lock with undo, and the chain structure of the *)
(* map changed one store at a time by writers that may die at any of them.     *)
(* R readers inside, W writers inside; each operation is one atomic semop.     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, Ops, Deaths, Signals, Keys, N
VARIABLES R, W, undo, pc, kind, alive, deaths, signals, todo, head, next, key, freeS, cur, arg, node, walk
vars == <<R, W, undo, pc, kind, alive, deaths, signals, todo, head, next, key, freeS, cur, arg, node, walk>>
Nil == N
Zero == [r |-> 0, w |-> 0]
Init == /\ R = 0 /\ W = 0 /\ undo = [p \in Procs |-> Zero] /\ pc = [p \in Procs |-> "idle"] /\ kind = [p \in Procs |-> "none"]
        /\ alive = Procs /\ deaths = 0 /\ signals = 0 /\ todo = [p \in Procs |-> Ops]
        /\ head = Nil /\ next = [i \in 0..N-1 |-> Nil] /\ key = [i \in 0..N-1 |-> 0] /\ freeS = <<>> /\ cur = 0
        /\ arg = [p \in Procs |-> 0] /\ node = [p \in Procs |-> Nil] /\ walk = [p \in Procs |-> 0]
lockv == <<R, W, undo>>
mem == <<head, next, key, freeS, cur>>
loc == <<arg, node, walk>>
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Start(p) == /\ pc[p] = "idle" /\ todo[p] > 0 /\ \E k \in {"read", "insert", "erase", "clear"}, x \in Keys : kind' = [kind EXCEPT ![p] = k] /\ arg' = [arg EXCEPT ![p] = x]
            /\ Go(p, "want") /\ UNCHANGED <<lockv, alive, deaths, signals, todo, mem, node, walk>>
Writing(p) == kind[p] # "read"
Lock(p) == /\ pc[p] = "want" /\ W = 0 /\ (Writing(p) => R = 0)
           /\ IF Writing(p) THEN W' = 1 /\ R' = R /\ undo' = [undo EXCEPT ![p].w = 1] ELSE R' = R + 1 /\ W' = W /\ undo' = [undo EXCEPT ![p].r = 1]
           /\ node' = [node EXCEPT ![p] = head] /\ walk' = [walk EXCEPT ![p] = Nil] /\ Go(p, "find")
           /\ UNCHANGED <<kind, alive, deaths, signals, todo, mem, arg>>
(* an interrupted wait gives the operation up *)
Signal(p) == /\ pc[p] = "want" /\ signals < Signals /\ ~(W = 0 /\ (Writing(p) => R = 0)) /\ signals' = signals + 1 /\ Go(p, "idle")
             /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ UNCHANGED <<lockv, kind, alive, deaths, mem, loc>>
Found(p) == IF kind[p] = "read" THEN "unlock" ELSE IF kind[p] = "insert" THEN "unlock" ELSE "unlink"
Find(p) == /\ pc[p] = "find" /\ UNCHANGED <<lockv, kind, alive, deaths, signals, todo, mem, arg>>
           /\ IF kind[p] = "clear" THEN Go(p, "c1") /\ UNCHANGED <<node, walk>>
              ELSE IF node[p] = Nil THEN Go(p, IF kind[p] = "insert" THEN "alloc" ELSE "unlock") /\ UNCHANGED <<node, walk>>
              ELSE IF key[node[p]] = arg[p] THEN Go(p, Found(p)) /\ UNCHANGED <<node, walk>>
              ELSE node' = [node EXCEPT ![p] = next[node[p]]] /\ walk' = [walk EXCEPT ![p] = node[p]] /\ UNCHANGED pc
same == UNCHANGED <<lockv, kind, alive, deaths, signals, todo, arg, walk>>
Alloc(p) == /\ pc[p] = "alloc" /\ same /\ UNCHANGED <<head, next, key>>
            /\ IF freeS # <<>> THEN freeS' = Tail(freeS) /\ cur' = cur /\ node' = [node EXCEPT ![p] = Head(freeS)] /\ Go(p, "fill")
               ELSE IF cur < N THEN cur' = cur + 1 /\ freeS' = freeS /\ node' = [node EXCEPT ![p] = cur] /\ Go(p, "fill")
               ELSE UNCHANGED <<freeS, cur, node>> /\ Go(p, "unlock")
Fill(p) == pc[p] = "fill" /\ key' = [key EXCEPT ![node[p]] = arg[p]] /\ Go(p, "tail") /\ same /\ UNCHANGED <<head, next, freeS, cur, node>>
Term(p) == pc[p] = "tail" /\ next' = [next EXCEPT ![node[p]] = Nil] /\ Go(p, "link") /\ same /\ UNCHANGED <<head, key, freeS, cur, node>>
Link(p) == /\ pc[p] = "link" /\ Go(p, "unlock") /\ same /\ UNCHANGED <<key, freeS, cur, node>>
           /\ IF walk[p] = Nil THEN head' = node[p] /\ next' = next ELSE next' = [next EXCEPT ![walk[p]] = node[p]] /\ head' = head
Unlink(p) == /\ pc[p] = "unlink" /\ Go(p, "cut") /\ same /\ UNCHANGED <<key, freeS, cur, node>>
             /\ IF walk[p] = Nil THEN head' = next[node[p]] /\ next' = next ELSE next' = [next EXCEPT ![walk[p]] = next[node[p]]] /\ head' = head
Cut(p) == pc[p] = "cut" /\ next' = [next EXCEPT ![node[p]] = Nil] /\ Go(p, "give") /\ same /\ UNCHANGED <<head, key, freeS, cur, node>>
Give(p) == pc[p] = "give" /\ freeS' = <<node[p]>> \o freeS /\ Go(p, "unlock") /\ same /\ UNCHANGED <<head, next, key, cur, node>>
Clear1(p) == pc[p] = "c1" /\ head' = Nil /\ Go(p, "c2") /\ same /\ UNCHANGED <<next, key, freeS, cur, node>>
Clear2(p) == pc[p] = "c2" /\ freeS' = <<>> /\ Go(p, "c3") /\ same /\ UNCHANGED <<head, next, key, cur, node>>
Clear3(p) == pc[p] = "c3" /\ cur' = 0 /\ Go(p, "unlock") /\ same /\ UNCHANGED <<head, next, key, freeS, node>>
Unlock(p) == /\ pc[p] = "unlock" /\ IF Writing(p) THEN W' = W - 1 /\ R' = R ELSE R' = R - 1 /\ W' = W
             /\ undo' = [undo EXCEPT ![p] = Zero] /\ Go(p, "idle") /\ todo' = [todo EXCEPT ![p] = @ - 1]
             /\ UNCHANGED <<kind, alive, deaths, signals, mem, loc>>
Die(p) == /\ deaths < Deaths /\ pc[p] # "idle" /\ deaths' = deaths + 1 /\ alive' = alive \ {p}
          /\ R' = R - undo[p].r /\ W' = W - undo[p].w /\ undo' = [undo EXCEPT ![p] = Zero]
          /\ UNCHANGED <<pc, kind, signals, todo, mem, loc>>
Step(p) == Start(p) \/ Lock(p) \/ Find(p) \/ Alloc(p) \/ Fill(p) \/ Term(p) \/ Link(p) \/ Unlink(p) \/ Cut(p) \/ Give(p) \/ Clear1(p) \/ Clear2(p) \/ Clear3(p) \/ Unlock(p)
Next == \E p \in alive : Step(p) \/ Signal(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(p \in alive /\ Step(p))
Inside(p) == p \in alive /\ pc[p] \notin {"idle", "want"}
Exclusion == \A p, q \in Procs : p # q /\ Inside(p) /\ Inside(q) => ~Writing(p) /\ ~Writing(q)
LockCounts == R = Cardinality({p \in Procs : Inside(p) /\ ~Writing(p)}) /\ W = Cardinality({p \in Procs : Inside(p) /\ Writing(p)})
RECURSIVE Chain(_, _)
Chain(i, seen) == IF i = Nil THEN seen ELSE IF i \in seen THEN {-1} ELSE Chain(next[i], seen \cup {i})
InUse == Chain(head, {})
(* even after a death: the chain ends, its nodes are not free, and none is free twice *)
NoCycle == -1 \notin InUse
FreeOnce == \A i, j \in 1..Len(freeS) : (i # j => freeS[i] # freeS[j]) /\ freeS[i] \notin InUse
BelowCur == InUse \subseteq 0..(cur - 1)
Unlocked == W = 0
Counts == deaths = 0 /\ Unlocked => Cardinality(InUse) = cur - Len(freeS)
KeysOnce == Unlocked => \A i, j \in InUse : key[i] = key[j] => i = j
Finishes == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle" \/ p \notin alive)
=============================================================================
