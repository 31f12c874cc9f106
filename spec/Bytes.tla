------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255 and the usual operators on them.        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowSeq(s) == [i \in 1..Len(s) |-> Low(s[i])]
EqCI(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Low(a[i]) = Low(b[i])
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
StartsCI(s, p) == Len(s) >= Len(p) /\ EqCI(SubSeq(s, 1, Len(p)), p)
IsPre(p, s) == Starts(s, p)
Members(s) == {s[i] : i \in 1..Len(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* first position >= i whose byte satisfies P, 0 when there is none *)
FirstFrom(s, i, P(_)) ==
  LET RECURSIVE G(_)
      G(j) == IF j > Len(s) THEN 0
              ELSE LET e == IF j + 63 < Len(s) THEN j + 63 ELSE Len(s) IN      \* by blocks: long texts
                   IF \E k \in j..e : P(s[k]) THEN CHOOSE k \in j..e : P(s[k]) /\ \A m \in j..(k - 1) : ~P(s[m]) ELSE G(e + 1)
  IN G(i)
FirstOf(s, c) == FirstFrom(s, 1, LAMBDA x : x = c)
LastFrom(s, i, P(_)) ==
  LET RECURSIVE G(_)
      G(j) == IF j < 1 THEN 0 ELSE IF P(s[j]) THEN j ELSE G(j - 1)
  IN G(i)
LastOf(s, c) == LastFrom(s, Len(s), LAMBDA x : x = c)
IsDigit(c) == c >= 48 /\ c <= 57
IsUp(c) == c >= 65 /\ c <= 90
IsLow(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUp(c) \/ IsLow(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUp(c) THEN c - 55 ELSE c - 87
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
(* maximal pieces between bytes satisfying P; one more piece than separators *)
SplitBy(s, P(_)) ==
  LET r == FoldLeft(LAMBDA a, x : IF P(x) THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                   ELSE [done |-> a.done, cur |-> Append(a.cur, x)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecNat(n \div 10), 48 + (n % 10))
DecNum(n) == IF n < 0 THEN <<45>> \o DecNat(-n) ELSE DecNat(n)
StripZeros(d) == LET i == FirstFrom(d, 1, LAMBDA x : x # 48) IN IF i = 0 THEN <<48>> ELSE Drop(d, i - 1)
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
(* compare two decimal numerals without leading zeros *)
NumLeq(a, b) == \/ Len(a) < Len(b)
                \/ /\ Len(a) = Len(b)
                   /\ \/ a = b
                      \/ LET i == MinOf({j \in 1..Len(a) : a[j] # b[j]}) IN a[i] < b[i]
Untouched(buf, from, canary) == \A i \in (from + 1)..Len(buf) : buf[i] = canary
=============================================================================
