---------------------------- MODULE FormatLaws ----------------------------
EXTENDS Format
VARIABLE s
Alpha == {1, 2}
Init == s = <<>>
Next == Len(s) < 7 /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Laws == LET r == Rle(s) IN
  /\ Size(r) = Len(s)
  /\ \A n \in 0..Len(s) : /\ First(r, n) = Rle(Take(s, n)) /\ After(r, n) = Rle(Drop(s, n))
                          /\ Cat(First(r, n), After(r, n)) = r
                          /\ Insert(r, n, Rle(<<2, 1>>)) = Rle(Take(s, n) \o <<2, 1>> \o Drop(s, n))
=============================================================================
