----------------------------- MODULE CodecLaws -----------------------------
(* The codec specifications checked against the properties' own wording on a   *)
(* finite domain: encoding is injective and reversed by decoding, etc.         *)
EXTENDS Bytes
CONSTANTS Alpha, MaxLen, TextAlpha
B58 == INSTANCE Base58
B64 == INSTANCE Base64
VARIABLE b, x
Init == b \in SeqOf(Alpha, MaxLen) /\ x = <<>>
Next == b' = b /\ Len(x) < MaxLen /\ Len(b) = 0 /\ \E c \in TextAlpha : x' = Append(x, c)
Spec == Init /\ [][Next]_<<b, x>>
RoundTrip == /\ B58!Dec58(B58!Enc58(b)) = b /\ B58!Valid58(B58!Enc58(b))
             /\ \A w \in BOOLEAN : B64!Valid64(w, B64!Enc64(w, b)) /\ B64!Bytes64(w, B64!Enc64(w, b)) = b
             /\ Len(B64!Enc64(FALSE, b)) = 4 * ((Len(b) + 2) \div 3)
Canonical58 == B58!Valid58(x) => B58!Enc58(B58!Dec58(x)) = x
Groups == \A w \in BOOLEAN : B64!Valid64(w, x) => Len(x) % 4 = 0 /\ Len(B64!Bytes64(w, x)) <= 3 * (Len(x) \div 4)
=============================================================================
