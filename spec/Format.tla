------------------------------- MODULE Format -------------------------------
(* C25 formatting.  Texts are run-length encoded, <<byte, count>> with equal   *)
(* neighbours merged, so that equal texts have equal representations.          *)
EXTENDS Bytes
Norm(r) == FoldLeft(LAMBDA a, p : IF p[2] = 0 THEN a
                                  ELSE IF a # <<>> /\ a[Len(a)][1] = p[1]
                                       THEN [a EXCEPT ![Len(a)] = <<p[1], @[2] + p[2]>>] ELSE Append(a, p), <<>>, r)
Cat(a, b) == Norm(a \o b)
Size(r) == FoldLeft(LAMBDA n, p : n + p[2], 0, r)
RECURSIVE First(_, _)
First(r, n) == IF n <= 0 \/ r = <<>> THEN <<>>
               ELSE IF Head(r)[2] >= n THEN << <<Head(r)[1], n>> >>
               ELSE <<Head(r)>> \o First(Tail(r), n - Head(r)[2])
RECURSIVE After(_, _)
After(r, n) == IF n <= 0 \/ r = <<>> THEN r
               ELSE IF Head(r)[2] > n THEN << <<Head(r)[1], Head(r)[2] - n>> >> \o Tail(r)
               ELSE After(Tail(r), n - Head(r)[2])
Rle(b) == Norm([i \in 1..Len(b) |-> <<b[i], 1>>])
(* the formatted text of the four formats used: "%s", "%s%d%s", "%c%s", a literal *)
Text(e) == CASE e.fmt = 0 -> Norm(e.a)
             [] e.fmt = 1 -> Cat(Cat(e.a, Rle(DecNum(e.d))), e.b)
             [] e.fmt = 2 -> Cat(<< <<e.d, 1>> >>, e.b)
             [] e.fmt = 3 -> Norm(e.a)
MinI(a, b) == IF a < b THEN a ELSE b
Insert(pre, pos, t) == Cat(Cat(First(pre, pos), t), After(pre, pos))
CallOK(e) ==
  LET t == Text(e) n == Size(t) pre == Norm(e.pre) IN
  CASE e.f = "strprintf" -> e.out = t
    [] e.f = "strappend" -> e.r = n /\ e.out = Cat(pre, t)
    [] e.f = "strnappend" -> e.r = MinI(n, e.num) /\ e.out = Cat(pre, First(t, e.num))
    [] e.f = "strnprintf" -> IF e.pos > Size(pre) THEN e.r = -1 /\ e.out = pre
                             ELSE e.r = MinI(n, e.num) /\ e.out = Insert(pre, e.pos, First(t, e.num))
    [] OTHER -> FALSE
=============================================================================
