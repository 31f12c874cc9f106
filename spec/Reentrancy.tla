---------------------------- MODULE Reentrancy ----------------------------
(* C40: the result of a use of the library depends on what it was given, not  *)
(* on what other threads do meanwhile.  A use works in steps: it may need a   *)
(* table that the first one fills, it writes intermediate data to some place  *)
(* and reads it back.  Disciplines: the place belongs to the call (own), is     *)
(* shared under a lock (locked) or just shared; the table was there from the  *)
(* beginning (before), is complete when it is marked (locked), or marked too   *)
(* soon (early).  Only own/locked with before/locked is sound.                 *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Args, Calls, NoArg, Places, Onces
F(x, full) == IF full THEN <<"f", x>> ELSE <<"wrong", x>>
VARIABLES place, once, pc, arg, got, scratch, table, lock, n
vars == <<place, once, pc, arg, got, scratch, table, lock, n>>
Where(t) == IF place = "own" THEN t ELSE CHOOSE s \in Threads : TRUE
Marked == table = 2 \/ (once = "early" /\ table = 1)
Init == /\ place \in Places /\ once \in Onces
        /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> NoArg] /\ got = [t \in Threads |-> NoArg]
        /\ scratch = [t \in Threads |-> NoArg] /\ table = (IF once = "before" THEN 2 ELSE 0) /\ lock = {} /\ n = [t \in Threads |-> 0]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == /\ pc[t] = "idle" /\ n[t] < Calls /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ \E x \in Args : arg' = [arg EXCEPT ![t] = x]
           /\ Go(t, "table") /\ UNCHANGED <<place, once, got, scratch, table, lock>>
(* the table: whoever finds it unfinished waits for the lock, and looks again *)
Look(t) == /\ pc[t] = "table" /\ Go(t, IF Marked THEN "enter" ELSE "want") /\ UNCHANGED <<place, once, arg, got, scratch, table, lock, n>>
Want(t) == /\ pc[t] = "want" /\ lock = {} /\ lock' = {t} /\ Go(t, "fill") /\ UNCHANGED <<place, once, arg, got, scratch, table, n>>
Fill(t) == /\ pc[t] = "fill"
           /\ IF table < 2 THEN table' = table + 1 /\ UNCHANGED <<pc, lock>> ELSE Go(t, "table") /\ lock' = {} /\ UNCHANGED table
           /\ UNCHANGED <<place, once, arg, got, scratch, n>>
Enter(t) == /\ pc[t] = "enter" /\ (place = "locked" => lock = {}) /\ lock' = (IF place = "locked" THEN {t} ELSE lock)
            /\ Go(t, "write") /\ UNCHANGED <<place, once, arg, got, scratch, table, n>>
Write(t) == /\ pc[t] = "write" /\ scratch' = [scratch EXCEPT ![Where(t)] = F(arg[t], table = 2)] /\ Go(t, "read") /\ UNCHANGED <<place, once, arg, got, table, lock, n>>
Read(t) == /\ pc[t] = "read" /\ got' = [got EXCEPT ![t] = scratch[Where(t)]] /\ lock' = lock \ {t} /\ Go(t, "done") /\ UNCHANGED <<place, once, arg, scratch, table, n>>
Return(t) == /\ pc[t] = "done" /\ Go(t, "idle") /\ UNCHANGED <<place, once, arg, got, scratch, table, lock, n>>
Step(t) == Call(t) \/ Look(t) \/ Want(t) \/ Fill(t) \/ Enter(t) \/ Write(t) \/ Read(t) \/ Return(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ n[t] = Calls
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
(* what a thread is given back is what it would be given with nobody else around *)
NonInterference == \A t \in Threads : pc[t] = "done" => got[t] = F(arg[t], TRUE)
OneHolder == Cardinality(lock) <= 1
AllReturn == <>Finished
=============================================================================
