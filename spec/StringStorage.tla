---------------------------- MODULE StringStorage ----------------------------
(* C14 C15.  Strings are numbered by a table, slots by first appearance.       *)
(* slot[s]: the slot of string s, 0 when it was not added; data[n]: contents   *)
(* of slot n.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES slot, data
(* every string that fits comfortably is stored, one that cannot fit is not    *)
CONSTANTS MustFit(_), CannotFit(_), Zero
InitWith(n) == slot = [s \in 1..n |-> 0] /\ data = <<>>
Added(s) == slot[s] # 0
Add(s, n) ==
  \/ /\ Added(s) /\ n = slot[s] /\ UNCHANGED <<slot, data>>
  \/ /\ ~Added(s) /\ n = Len(data) + 1 /\ ~CannotFit(s)
     /\ slot' = [slot EXCEPT ![s] = n] /\ data' = Append(data, Zero)
  \/ /\ ~Added(s) /\ n = 0 /\ ~MustFit(s) /\ UNCHANGED <<slot, data>>
Find(s, n) == n = slot[s] /\ UNCHANGED <<slot, data>>
Write(n, v) == n \in 1..Len(data) /\ data' = [data EXCEPT ![n] = v] /\ UNCHANGED slot
Strings == {s \in 1..Len(slot) : Added(s)}
(* calls: the sequence of <<string, slot>> callbacks *)
Enumerate(calls) == /\ Len(calls) = Len(data)
                    /\ {calls[i] : i \in 1..Len(calls)} = {<<s, slot[s]>> : s \in Strings}
                    /\ UNCHANGED <<slot, data>>
Check(all) == Len(all) = Len(data) /\ (\A n \in 1..Len(all) : all[n] = data[n]) /\ UNCHANGED <<slot, data>>
Free == slot' = [s \in 1..Len(slot) |-> 0] /\ data' = <<>>
Distinct == \A s, u \in Strings : s # u => slot[s] # slot[u]
OneSlotEach == 1..Len(data) = {slot[s] : s \in Strings}
=============================================================================
