------------------------------- MODULE Errors -------------------------------
(* C37 what an error says.  Texts are run-length encoded as in Format.tla.     *)
EXTENDS Format
Room == 4095      \* longest text an error holds
RECURSIVE UpToNul(_)
UpToNul(r) == IF r = <<>> \/ Head(r)[1] = 0 THEN <<>> ELSE <<Head(r)>> \o UpToNul(Tail(r))
(* made with a format alone, or with an error number whose text is e.sys       *)
Num(n) == Rle(DecNum(n))
Whole(e) == IF e.by = "errno" THEN Cat(Text(e), Cat(Rle(<<32, 40>>), Cat(Num(e.err), Cat(Rle(<<58, 32>>), Cat(Norm(e.sys), Rle(<<41>>)))))) ELSE Text(e)
\* what stands behind a NUL in the formatted text is cut, the cut at Room counts all bytes
What(e) == UpToNul(First(Whole(e), Room))
ErrorOK(e) ==
  CASE e.f = "error" -> e.what = What(e) /\ e.copy = What(e) /\ e.caught = What(e)
    [] e.f = "strerror" -> e.known => Norm(e.r) = Norm(e.sys) /\ e.again = e.r
    [] OTHER -> FALSE
=============================================================================
