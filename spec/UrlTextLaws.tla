---------------------------- MODULE UrlTextLaws ----------------------------
EXTENDS Bytes
CONSTANTS Alpha, MaxLen
U == INSTANCE UrlText
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
SafeOut == \A p \in BOOLEAN : \A i \in 1..Len(U!Enc(s, p)) :
             LET c == U!Enc(s, p)[i] IN U!Safe(c) \/ c = 37 \/ (c = 43 /\ p)
RoundTrip == \A p \in BOOLEAN : U!WellFormed(U!Enc(s, p)) /\ U!Dec(U!Enc(s, p)) = s
UnescEsc == U!Unesc(U!Enc(s, TRUE)) = s
PreIdem == Len(U!PreUnesc(s)) <= Len(s)
LastWins == \A m \in {{}, {<<<<97>>, <<1>>>>}} : LET r == U!Params(m, s) IN
            /\ \A p, q \in r : p[1] = q[1] => p = q
            /\ \A p \in m : (\E q \in r : q[1] = p[1])
NoSep == \A p \in U!Headers({}, s) : 58 \notin Members(p[1])
=============================================================================
