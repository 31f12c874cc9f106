--------------------------- MODULE StringsTrace ---------------------------
EXTENDS CallTrace
S == INSTANCE Strings
CI(f) == f \in {"strxchr", "revxchr", "strxchp", "stristr", "strxstr", "strispn", "strxspn", "revxspn", "strispc", "strxspc", "revxspc"}
(* a^n b a^m is judged as a^3 b a^3, with what lies at or behind the b moved *)
Reps(c, n) == [i \in 1..n |-> c]
Far(e) == Reps(97, 3) \o <<98>> \o Reps(97, 3)
FromEnd(f) == f \in {"revnspn", "revxspn", "revnspc", "revxspc"}      \* a length, counted from the end
Moved(e, r) == IF r < 2 THEN r ELSE IF r <= 4 THEN r + (IF FromEnd(e.f) THEN e.m1 ELSE e.n1) - 3 ELSE r + e.n1 - 3 + e.m1 - 3
CallAt(e, s, r) ==
  CASE e.f \in {"strnchr", "strxchr"} -> r = S!Chr(s, e.n[1], CI(e.f))
    [] e.f \in {"revnchr", "revxchr"} -> r = S!RevChr(s, e.n[1], CI(e.f))
    [] e.f \in {"strnchp", "strxchp"} -> r = S!Chp(s, e.n[1], CI(e.f))
    [] e.f \in {"stristr", "strnstr", "strxstr"} -> r = S!Sub(s, e.n, CI(e.f))
    [] e.f \in {"strispn", "strnspn", "strxspn"} -> r = S!Spn(s, e.n, CI(e.f), TRUE, FALSE)
    [] e.f \in {"strispc", "strnspc", "strxspc"} -> r = S!Spn(s, e.n, CI(e.f), FALSE, FALSE)
    [] e.f \in {"revnspn", "revxspn"} -> r = S!Spn(s, e.n, CI(e.f), TRUE, TRUE)
    [] e.f \in {"revnspc", "revxspc"} -> r = S!Spn(s, e.n, CI(e.f), FALSE, TRUE)
    [] OTHER -> FALSE
OtherOK(e) ==
  CASE e.f = "atou" -> S!AtouOK(e.s, e.r)
    [] e.f = "atoi" -> S!AtoiOK(e.s, e.r)
    [] e.f \in {"split", "splitn"} -> e.r = S!Split(e.s, e.n, e.ignore)
    [] e.f = "strset" -> Members(e.r) = Members(e.pre) \cup S!Items(e.s)
    [] e.f = "numset" -> Members(e.r) = Members(e.pre) \cup S!Numbers(e.s)
    [] e.f = "words" -> e.r = S!Words(e.s) /\ e.last = 0
    [] e.f = "random" -> Len(e.r) = e.size /\ Members(e.r) \subseteq Members(e.n)
    [] OTHER -> FALSE
CallOK(e) ==
  CASE e.f = "pieces" -> e.same
    [] "far" \in DOMAIN e -> \E r \in -1..7 : CallAt(e, Far(e), r) /\ e.r = Moved(e, r)
    [] e.f \in {"atou", "atoi", "split", "splitn", "strset", "numset", "words", "random"} -> OtherOK(e)
    [] OTHER -> CallAt(e, e.s, e.r)
Ok == CallOK(Trace[t])
=============================================================================
