----------------------------- MODULE LogArrayMC -----------------------------
(* All small arrays: the position of a number is found by repeated halving,    *)
(* positions grow with the numbers, a write is seen by exactly the numbers of  *)
(* the same position, and exchanging twice changes nothing.                    *)
EXTENDS LogArray, FiniteSets
CONSTANTS M, MaxN
VARIABLES a, n
RECURSIVE Bits(_)
Bits(k) == IF k = 1 THEN <<1>> ELSE Append(Bits(k \div 2), k % 2)
RECURSIVE Log2(_)
Log2(k) == IF k = 1 THEN 0 ELSE 1 + Log2(k \div 2)
Init == n \in 1..MaxN /\ a = [x \in {1, 2} |-> Empty(M)]
Write == \E x \in {1, 2}, v \in {1, 2} : a' = Put(a, M, x, Bits(n), v)
Exchange == a' = Swap(a, 1, 2)
Next == (Write \/ Exchange) /\ n' \in 1..MaxN
Spec == Init /\ [][Next]_<<a, n>>
Laws ==
  /\ Order(Bits(n)) = Log2(n) /\ 2^Order(Bits(n)) <= n /\ n < 2^(Order(Bits(n)) + 1)
  /\ \A k \in 1..MaxN : k <= n => Slot(M, Bits(k)) <= Slot(M, Bits(n))
  /\ Slot(M, Bits(n)) \in 0..M - 1
  /\ \A k \in 1..MaxN : LET b == Put(a, M, 1, Bits(n), 2) IN
       /\ b[2] = a[2]
       /\ At(b, 1, Slot(M, Bits(k))) = IF Slot(M, Bits(k)) = Slot(M, Bits(n)) THEN 2 ELSE At(a, 1, Slot(M, Bits(k)))
  /\ Swap(Swap(a, 1, 2), 1, 2) = a /\ Swap(a, 1, 1) = a
=============================================================================
