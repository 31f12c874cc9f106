----------------------------- MODULE SignalsMC -----------------------------
(* Every sequence of set-ups, deliveries, masks and acknowledgements over a    *)
(* few signals of each kind, against what the flags must mean.                 *)
EXTENDS Signals
CONSTANTS Sigs
VARIABLES due     \* class -> a signal of it was raised unmasked, or unmasked, since the flag was last cleared
mcvars == <<vars, due>>
Init == SigInit /\ due = {}
Took == UNION {Flag(s) : s \in pending \ pending'}
Next == \/ \E m \in {"restart", "norestart"} : SetUp(m) /\ UNCHANGED due
        \/ \E s \in Sigs : Raise(s) /\ due' = due \cup (IF s \in blocked THEN {} ELSE Flag(s))
        \/ \E s \in Sigs, i \in BOOLEAN : Slow(s, i) /\ due' = due \cup (IF s \in blocked THEN {} ELSE Flag(s))
        \/ \E h \in {"block", "unblock", "set", "other"}, set \in SUBSET (Sigs \cup {9, 11}), r \in {0, -1} :
             Mask(h, set, r) /\ due' = due \cup UNION {Flag(s) : s \in {x \in pending : x \notin blocked'}}
        \/ \E n \in Names : Clear(n) /\ due' = due \ {n}
Spec == Init /\ [][Next]_mcvars
Exact == flags = due
Sane == pending \subseteq blocked /\ blocked \subseteq Handled
(* unmasking is the only way a waiting signal with a flag goes away, and then its flag is set *)
Effect == [][\A s \in pending \ pending' : s \in Stops \cup {18} \/ (s \notin blocked' /\ Flag(s) \subseteq flags')]_mcvars
=============================================================================
