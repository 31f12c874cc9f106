----------------------------- MODULE CodecTrace -----------------------------
EXTENDS CallTrace
B58 == INSTANCE Base58
B64 == INSTANCE Base64
CANARY == 165
(* what an encoder may leave in a buffer of given size: as much of the text as  *)
(* fits, a terminator when there is room, and nothing else                      *)
Filled(buf, text) == LET n == Len(buf) m == Len(text) IN
  IF n <= m THEN buf = Take(text, n)
  ELSE /\ Take(buf, m) = text /\ buf[m + 1] = 0 /\ Untouched(buf, m + 1, CANARY)
CallOK(e) ==
  CASE e.f = "b58enc" -> Filled(e.out, B58!Enc58(e.in))
    [] e.f = "b58enca" -> LET x == B58!Enc58(e.in) IN e.r = Len(x) /\ e.out = x /\ e.z = 0
    [] e.f = "b58dec" -> IF B58!Valid58(e.in)
                         THEN LET d == B58!Dec58(e.in) IN e.r = Len(d) /\ Take(e.out, Len(d)) = d
                         ELSE e.r < 0
    [] e.f = "b58deca" -> IF B58!Valid58(e.in)
                          THEN LET d == B58!Dec58(e.in) IN e.r = Len(d) /\ e.out = d /\ e.got
                          ELSE e.r < 0 /\ ~e.got
    [] e.f = "isb58" -> e.r = (B58!B58Val[e.c] >= 0)
    [] e.f = "b64enc" -> Filled(e.out, B64!Enc64(e.web, e.in))
    [] e.f = "b64enca" -> LET x == B64!Enc64(FALSE, e.in) IN e.r = Len(x) /\ e.out = x /\ e.z = 0
    [] e.f = "b64dec" -> LET d == B64!Bytes64(e.web, e.in) IN
                         /\ e.r = B64!Valid64(e.web, e.in)
                         /\ e.n <= Len(e.out)
                         /\ Untouched(e.out, e.n, CANARY)
                         /\ IsPre(Take(e.out, e.n), d)
                         /\ e.r => e.n = (IF Len(d) < Len(e.out) THEN Len(d) ELSE Len(e.out))
    [] e.f = "b64deca" -> LET d == B64!Bytes64(FALSE, e.in) IN
                          /\ e.r = B64!Valid64(FALSE, e.in)
                          /\ e.got = e.r
                          /\ e.r => e.out = d
    [] e.f = "b64encm" -> LET n == B64!Need64(e.in) IN ~e.got /\ B64!Trim(e.out) = IF B64!Fits(n) THEN n ELSE <<>>
    \* whole groups: k times the text of one is the text of k
    [] e.f = "rep64" -> e.same /\ e.y = B64!Enc64(e.g = "w64", e.in)
    [] e.f = "b64decm" -> ~e.got /\ e.r
    [] e.f = "isb64" -> e.r = (B64!V(FALSE, e.c) >= 0)
    [] OTHER -> FALSE
Ok == CallOK(Trace[t])
=============================================================================
