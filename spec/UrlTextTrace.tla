---------------------------- MODULE UrlTextTrace ----------------------------
EXTENDS CallTrace
U == INSTANCE UrlText
PairSet(s) == {s[i] : i \in 1..Len(s)}
CallOK(e) ==
  CASE e.f = "urlenc" -> LET x == U!Enc(e.in, e.plus) IN
                         /\ e.sout = x /\ e.strout = x
                         /\ e.plus => (e.r = Len(x) /\ Take(e.buf, Len(x)) = x /\ e.buf[Len(x) + 1] = 0)
    [] e.f = "urldec" -> LET x == U!Dec(e.in) IN
                         U!WellFormed(e.in) => /\ e.sout = x /\ e.strout = x
                                               /\ e.r = Len(x) /\ Take(e.buf, Len(x)) = x /\ e.buf[Len(x) + 1] = 0
    [] e.f = "round" -> e.out = e.in
    [] e.f = "escape" -> U!Holds(e.buf, U!Enc(e.in, TRUE))
    [] e.f = "unescape" -> U!Holds(e.buf, U!Unesc(e.in))
    [] e.f = "preunescape" -> U!Holds(e.buf, U!PreUnesc(e.in))
    [] e.f = "params" -> /\ e.r = 0 /\ PairSet(e.post) = U!Params(PairSet(e.pre), e.in)
                         /\ Len(e.post) = Cardinality(PairSet(e.post))
    [] e.f = "header" -> /\ e.r = 0 /\ PairSet(e.post) = U!Headers(PairSet(e.pre), e.in)
                         /\ Len(e.post) = Cardinality(PairSet(e.post))
    \* e.in is a text the operation treats piece by piece: what becomes of k of them is k times what becomes of one
    [] e.f = "rep" -> e.same /\ e.y = CASE e.g \in {"urlenc", "escape"} -> U!Enc(e.in, TRUE) [] e.g = "urlencnp" -> U!Enc(e.in, FALSE) [] e.g = "urldec" -> U!Dec(e.in)
                                        [] e.g = "unescape" -> U!Unesc(e.in) [] e.g = "preunescape" -> U!PreUnesc(e.in) [] OTHER -> e.in
    [] e.f = "null" -> e.r = -1
    [] OTHER -> FALSE
Ok == CallOK(Trace[t])
=============================================================================
