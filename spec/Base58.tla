------------------------------- MODULE Base58 -------------------------------
(* C16.  Base-58 as mathematics: a byte string is a base-256 numeral, its text *)
(* the base-58 numeral of the same value with one "1" per leading zero byte.   *)
EXTENDS Bytes
B58Alphabet == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
              97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
B58Val == [c \in 0..255 |-> IF \E i \in 1..58 : B58Alphabet[i] = c THEN (CHOOSE i \in 1..58 : B58Alphabet[i] = c) - 1 ELSE -1]
(* little-endian digits times m plus a *)
MulAdd(d, base, m, a) ==
  LET step(acc, x) == LET y == acc.c + x * m IN [c |-> y \div base, o |-> Append(acc.o, y % base)]
      r == FoldLeft(step, [c |-> a, o |-> <<>>], d)
      RECURSIVE Carry(_, _)
      Carry(c, o) == IF c = 0 THEN o ELSE Carry(c \div base, Append(o, c % base))
  IN Carry(r.c, r.o)
Rebase(digits, from, to) == Reverse(FoldLeft(LAMBDA acc, x : MulAdd(acc, to, from, x), <<>>, digits))
LeadCount(s, c) == LET i == FirstFrom(s, 1, LAMBDA x : x # c) IN IF i = 0 THEN Len(s) ELSE i - 1
Enc58(b) == LET z == LeadCount(b, 0) d == Rebase(Drop(b, z), 256, 58)
            IN [i \in 1..z |-> 49] \o [i \in 1..Len(d) |-> B58Alphabet[d[i] + 1]]
Valid58(txt) == \A i \in 1..Len(txt) : B58Val[txt[i]] >= 0
Dec58(txt) == LET z == LeadCount(txt, 49) r == Drop(txt, z)
                  d == Rebase([i \in 1..Len(r) |-> B58Val[r[i]]], 58, 256)
              IN [i \in 1..z |-> 0] \o d
=============================================================================
