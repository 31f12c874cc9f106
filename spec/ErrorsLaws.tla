----------------------------- MODULE ErrorsLaws -----------------------------
(* Over short texts with NULs: what is said is the longest NUL-free beginning   *)
(* that fits, and saying it again changes nothing.                             *)
EXTENDS Errors
VARIABLE s
Init == s = <<>>
Next == Len(s) < 9 /\ \E c \in {0, 65, 66} : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Flat(r) == FoldLeft(LAMBDA a, p : a \o [i \in 1..p[2] |-> p[1]], <<>>, r)
Laws == LET u == Flat(UpToNul(Rle(s))) IN
  /\ Len(u) <= Len(s) /\ u = SubSeq(s, 1, Len(u)) /\ \A i \in 1..Len(u) : u[i] # 0
  /\ Len(u) = Len(s) \/ s[Len(u) + 1] = 0
  /\ UpToNul(UpToNul(Rle(s))) = UpToNul(Rle(s))
  /\ \A n \in 0..9 : UpToNul(First(Rle(s), n)) = First(UpToNul(Rle(s)), n)
=============================================================================
