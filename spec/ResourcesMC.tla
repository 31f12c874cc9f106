---------------------------- MODULE ResourcesMC ----------------------------
(* Calls as sequences of acquisitions and releases, any acquisition may fail, *)
(* upon which the call gives back what it took: between calls exactly the     *)
(* open things are paid for, for ever.                                        *)
EXTENDS Resources, TLC
CONSTANTS MaxOpen
Kinds == {"map", "socket", "attachment", "log", "read"}
R == {"fd", "map", "shm", "mem"}
\* what each call does, in order
Plan(k) == CASE k = "map" -> <<<<"fd", 1>>, <<"map", 1>>, <<"fd", -1>>>>
             [] k = "socket" -> <<<<"fd", 1>>>>
             [] k = "attachment" -> <<<<"shm", 1>>, <<"mem", 1>>>>
             [] k = "log" -> <<<<"mem", 1>>, <<"mem", -1>>, <<"fd", 1>>, <<"fd", -1>>>>
             [] k = "read" -> <<<<"mem", 1>>, <<"fd", 1>>, <<"mem", 1>>, <<"fd", -1>>, <<"mem", -1>>, <<"mem", -1>>>>
RECURSIVE Net(_, _, _)
Net(p, n, r) == IF n = 0 THEN 0 ELSE Net(p, n - 1, r) + (IF p[n][1] = r THEN p[n][2] ELSE 0)
VARIABLES open, usage, call, at
vars == <<open, usage, call, at>>
None == [r \in R |-> 0]
Init == open = [k \in Kinds |-> 0] /\ usage = None /\ call = "none" /\ at = 0
Total == LET n(k) == open[k] IN n("map") + n("socket") + n("attachment")
Begin == call = "none" /\ Total < MaxOpen /\ \E k \in Kinds : call' = k /\ at' = 0 /\ UNCHANGED <<open, usage>>
Go == /\ call # "none" /\ at < Len(Plan(call))
      /\ usage' = [usage EXCEPT ![Plan(call)[at + 1][1]] = @ + Plan(call)[at + 1][2]] /\ at' = at + 1 /\ UNCHANGED <<open, call>>
Fail == /\ call # "none" /\ at < Len(Plan(call)) /\ Plan(call)[at + 1][2] = 1
        /\ usage' = [r \in R |-> usage[r] - Net(Plan(call), at, r)] /\ call' = "none" /\ at' = 0 /\ UNCHANGED open
End == /\ call # "none" /\ at = Len(Plan(call)) /\ call' = "none" /\ at' = 0 /\ UNCHANGED usage
       /\ open' = IF call \in {"map", "socket", "attachment"} THEN [open EXCEPT ![call] = @ + 1] ELSE open
Give == /\ call = "none" /\ \E k \in Kinds : open[k] > 0 /\ open' = [open EXCEPT ![k] = @ - 1]
              /\ usage' = [r \in R |-> usage[r] - Net(Plan(k), Len(Plan(k)), r)]
        /\ UNCHANGED <<call, at>>
Next == Begin \/ Go \/ Fail \/ End \/ Give
Spec == Init /\ [][Next]_vars
Laws == /\ \A r \in R : usage[r] >= 0
        /\ call = "none" => /\ usage["fd"] = open["socket"] * Takes("socket")[1]
                            /\ usage["map"] = open["map"] * Takes("map")[2]
                            /\ usage["shm"] = open["attachment"] * Takes("attachment")[3]
        /\ (call = "none" /\ Total = 0) => usage = None
=============================================================================
