----------------------------- MODULE StringsLaws -----------------------------
EXTENDS Strings
CONSTANTS Alpha, MaxLen, Sets
SetsDef == {<<>>, <<97>>, <<65>>, <<98, 97>>, <<97, 98>>, <<97, 97>>, <<97, 65, 98>>}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Mirror == \A n \in Sets, ci, in \in BOOLEAN : Spn(s, n, ci, in, TRUE) = Spn(Reverse(s), n, ci, in, FALSE)
Maximal == \A n \in Sets, ci, in \in BOOLEAN : LET k == Spn(s, n, ci, in, FALSE) IN
             /\ \A i \in 1..k : In(s[i], n, ci) = in
             /\ k < Len(s) => In(s[k + 1], n, ci) # in
ChrMirror == \A c \in Alpha, ci \in BOOLEAN : LET a == Chr(s, c, ci) b == RevChr(s, c, ci) IN
             /\ (a < 0) = (b < 0) /\ a <= b
             /\ b >= 0 => Chr(Reverse(s), c, ci) = Len(s) - 1 - b
             /\ a = Sub(s, <<c>>, ci)
             /\ Chp(s, c, ci) = Spn(s, <<c>>, ci, FALSE, FALSE)
SubSound == \A n \in Sets, ci \in BOOLEAN : n # <<>> => LET p == Sub(s, n, ci) IN
             /\ p >= 0 => MatchAt(s, n, p, ci) /\ \A q \in 0..(p - 1) : ~MatchAt(s, n, q, ci)
             /\ p < 0 => \A q \in 0..Len(s) : ~MatchAt(s, n, q, ci)
RECURSIVE Join(_, _)
Join(ps, d) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<d>> \o Join(Tail(ps), d)
SplitJoin == \A d \in Alpha : /\ Join(Split(s, <<d>>, FALSE), d) = s
                              /\ \A i \in 1..Len(Split(s, <<d>>, FALSE)) : d \notin Members(Split(s, <<d>>, FALSE)[i])
                              /\ Split(s, <<d>>, TRUE) = SelectSeq(Split(s, <<d>>, FALSE), LAMBDA p : p # <<>>)
=============================================================================
