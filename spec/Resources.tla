----------------------------- MODULE Resources -----------------------------
(* What a process holds: memory, descriptors, mappings of files, attachments  *)
(* of shared memory.  A call that makes something holds exactly what belongs  *)
(* to it, one that fails holds nothing, giving it back gives back all of it.  *)
EXTENDS Integers, Sequences, FiniteSets
\* <<descriptors, file mappings, attachments>> of one thing of each kind (memory is its own business)
Takes(what) == CASE what \in {"file", "socket"} -> <<1, 0, 0>>
                 [] what = "map" -> <<0, 1, 0>>
                 [] what = "attachment" -> <<0, 0, 1>>
                 [] OTHER -> <<0, 0, 0>>
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Zero == <<0, 0, 0>>
RECURSIVE Sum(_, _)
Sum(kind, S) == IF S = {} THEN Zero ELSE LET i == CHOOSE i \in S : TRUE IN Plus(Takes(kind[i]), Sum(kind, S \ {i}))
=============================================================================
