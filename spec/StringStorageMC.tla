--------------------------- MODULE StringStorageMC ---------------------------
EXTENDS StringStorage
MF(s) == s <= 2
CF(s) == s = 5
Next == \E s \in 1..5, n \in 0..5, v \in 0..1 : Add(s, n) \/ Find(s, n) \/ Write(n, v) \/ Free
Spec == InitWith(5) /\ [][Next]_<<slot, data>>
NoLoss == [][data' = <<>> \/ \A s \in Strings : slot'[s] = slot[s]]_<<slot, data>>
NeverStored == slot[5] = 0
=============================================================================
