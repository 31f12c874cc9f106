------------------------------ MODULE LogArray ------------------------------
(* Arrays indexed by the order of magnitude of a number.  A number is the      *)
(* sequence of its binary digits, most significant first, without leading      *)
(* zeros.  The state of a run is the contents of its arrays.                   *)
EXTENDS Naturals, Sequences
Order(bits) == Len(bits) - 1
Slot(m, bits) == IF Order(bits) < m THEN Order(bits) ELSE m - 1
Empty(m) == [i \in 0..m - 1 |-> 0]
(* a: array -> contents.  Every operation on arrays of m positions.            *)
Put(a, m, x, bits, v) == [a EXCEPT ![x][Slot(m, bits)] = v]
At(a, x, i) == a[x][i]
Swap(a, x, y) == [a EXCEPT ![x] = a[y], ![y] = a[x]]
=============================================================================
