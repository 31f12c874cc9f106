------------------------------- MODULE Base64 -------------------------------
(* C17.  RFC 4648 base-64 over a 64-character alphabet and a padding character *)
EXTENDS Bytes
Std(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
Web(i) == IF i = 62 THEN 45 ELSE IF i = 63 THEN 95 ELSE Std(i)
Char(web, i) == IF web THEN Web(i) ELSE Std(i)
PadC(web) == IF web THEN 46 ELSE 61
Val(web) == [c \in 0..255 |-> IF \E i \in 0..63 : Char(web, i) = c THEN CHOOSE i \in 0..63 : Char(web, i) = c ELSE -1]
StdVal == Val(FALSE)
WebVal == Val(TRUE)
V(web, c) == IF web THEN WebVal[c] ELSE StdVal[c]
Enc64(web, b) ==
  LET n == Len(b)
      g(i) == IF i <= n THEN b[i] ELSE 0
      out(k) ==                                      \* k-th output character, from 0
        LET q == k \div 4  p == k % 4  i == 3 * q + 1
            sx == CASE p = 0 -> g(i) \div 4
                    [] p = 1 -> (g(i) % 4) * 16 + g(i + 1) \div 16
                    [] p = 2 -> (g(i + 1) % 16) * 4 + g(i + 2) \div 64
                    [] p = 3 -> g(i + 2) % 64
        IN IF (p = 2 /\ i + 1 > n) \/ (p = 3 /\ i + 2 > n) THEN PadC(web) ELSE Char(web, sx)
  IN [k \in 1..(4 * ((n + 2) \div 3)) |-> out(k - 1)]
(* whole groups over the alphabet with padding only at the end *)
Valid64(web, x) ==
  LET n == Len(x)
      pads == IF n >= 2 /\ x[n] = PadC(web) THEN (IF x[n - 1] = PadC(web) THEN 2 ELSE 1) ELSE IF n >= 1 /\ x[n] = PadC(web) THEN 1 ELSE 0
  IN n % 4 = 0 /\ \A i \in 1..(n - pads) : V(web, x[i]) >= 0
(* the bytes spelled by the leading alphabet characters *)
Bytes64(web, x) ==
  LET e == FirstFrom(x, 1, LAMBDA c : V(web, c) < 0)
      m == IF e = 0 THEN Len(x) ELSE e - 1
      nb == (m * 6) \div 8
      byte(k) == LET q == k \div 3  p == k % 3  i == 4 * q + 1
                 IN CASE p = 0 -> V(web, x[i]) * 4 + V(web, x[i + 1]) \div 16
                      [] p = 1 -> (V(web, x[i + 1]) % 16) * 16 + V(web, x[i + 2]) \div 4
                      [] p = 2 -> (V(web, x[i + 2]) % 4) * 64 + V(web, x[i + 3])
  IN [k \in 1..nb |-> byte(k - 1)]
(* the memory the text of so many bytes needs, terminator included; numbers are written in base 256, lowest digit first *)
RECURSIVE MulAdd(_, _, _), DivBE(_, _, _), Trim(_)
MulAdd(x, k, c) == IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o MulAdd(<<>>, k, c \div 256))
                   ELSE LET v == x[1] * k + c IN <<v % 256>> \o MulAdd(Tail(x), k, v \div 256)
DivBE(x, k, r) == IF x = <<>> THEN <<>> ELSE LET v == r * 256 + x[1] IN <<v \div k>> \o DivBE(Tail(x), k, v % k)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Back(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Need64(n) == Trim(MulAdd(Back(DivBE(Back(MulAdd(n, 1, 2)), 3, 0)), 4, 1))
Fits(x) == Len(x) <= 8
=============================================================================
