---------------------------- MODULE VietnamLaws ----------------------------
EXTENDS Vietnam
VARIABLE c
Init == c \in {64 * k : k \in 0..127} \cup {64 * k : k \in {200, 500, 800, 860, 900, 1023}} \cup {65536 + (8191 * k) : k \in 0..127}
Next == c % 64 # 63 /\ c < 65536 /\ c' = c + 1
Spec == Init /\ [][Next]_c
Laws == LET x == Utf8(c) IN
  /\ Len(x) = CharLen(x[1]) /\ Code(x) = c
  /\ Len(Strip(x)) <= Len(x) /\ Strip(Strip(x)) = Strip(x)
  /\ (c < 192 => Strip(x) = x)
  /\ \A k \in 1..(Len(x) - 1) : Strip(<<97>> \o Take(x, k)) = <<97>> \o Take(x, k)
=============================================================================
