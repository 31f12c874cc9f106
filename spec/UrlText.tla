------------------------------ MODULE UrlText ------------------------------
(* C18 URL encoding, C19 fixed-buffer escaping, C20 parameters and headers.    *)
EXTENDS Bytes
(* ------------------------------ C18 --------------------------------------- *)
Safe(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}          \* - . _ ~
Escape(c) == <<37, HexUp(c \div 16), HexUp(c % 16)>>
EncByte(c, plus) == IF Safe(c) THEN <<c>> ELSE IF c = 32 /\ plus THEN <<43>> ELSE Escape(c)
Enc(b, plus) == FoldLeft(LAMBDA acc, c : acc \o EncByte(c, plus), <<>>, b)
WellFormed(x) == \A i \in 1..Len(x) : x[i] = 37 => (i + 2 > Len(x) \/ (IsHex(x[i + 1]) /\ IsHex(x[i + 2])))
Dec(x) ==
  LET RECURSIVE D(_, _)
      D(i, acc) == IF i > Len(x) THEN acc
                   ELSE IF x[i] = 37 /\ i + 2 <= Len(x)
                        THEN D(i + 3, Append(acc, 16 * HexVal(x[i + 1]) + HexVal(x[i + 2])))
                        ELSE D(i + 1, Append(acc, IF x[i] = 43 THEN 32 ELSE x[i]))
  IN D(1, <<>>)
(* ------------------------------ C19 --------------------------------------- *)
At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
HexAt(x, i) == IsHex(At(x, i))
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>> ELSE <<>>
(* number of hex digits, at most four, from position i *)
HexRun(x, i) == IF ~HexAt(x, i) THEN 0 ELSE IF ~HexAt(x, i + 1) THEN 1 ELSE IF ~HexAt(x, i + 2) THEN 2
                ELSE IF ~HexAt(x, i + 3) THEN 3 ELSE 4
HexNum(x, i, n) == FoldLeft(LAMBDA a, c : 16 * a + HexVal(c), 0, SubSeq(x, i, i + n - 1))
Unesc(x) ==
  LET RECURSIVE U(_, _)
      U(i, acc) ==
        IF i > Len(x) THEN acc
        ELSE IF x[i] = 43 THEN U(i + 1, Append(acc, 32))
        ELSE IF x[i] = 37 /\ HexAt(x, i + 1) /\ HexAt(x, i + 2) THEN U(i + 3, Append(acc, HexNum(x, i + 1, 2)))
        ELSE IF x[i] = 37 /\ At(x, i + 1) = 117 /\ HexAt(x, i + 2)
             THEN LET n == HexRun(x, i + 2) IN U(i + 2 + n, acc \o Utf8(HexNum(x, i + 2, n)))
        ELSE IF x[i] = 92 /\ At(x, i + 1) = 120 /\ HexAt(x, i + 2) /\ HexAt(x, i + 3)
             THEN U(i + 4, Append(acc, HexNum(x, i + 2, 2)))
        ELSE U(i + 1, Append(acc, x[i]))
  IN U(1, <<>>)
PreUnesc(x) ==
  LET RECURSIVE U(_, _)
      U(i, acc) ==
        IF i > Len(x) THEN acc
        ELSE IF x[i] = 37 /\ HexAt(x, i + 1) /\ HexAt(x, i + 2)
             THEN LET c == HexNum(x, i + 1, 2) IN U(i + 3, acc \o IF c >= 128 THEN <<c>> ELSE SubSeq(x, i, i + 2))
        ELSE IF x[i] = 92 /\ At(x, i + 1) = 120 /\ HexAt(x, i + 2) /\ HexAt(x, i + 3)
             THEN LET c == HexNum(x, i + 2, 2) IN U(i + 4, acc \o IF c >= 128 THEN <<c>> ELSE SubSeq(x, i, i + 3))
        ELSE U(i + 1, Append(acc, x[i]))
  IN U(1, <<>>)
(* a terminated prefix of the result; all of it when 5 bytes shorter than the buffer *)
Holds(buf, full) ==
  Len(buf) > 0 => LET z == FirstOf(buf, 0) IN
     /\ z > 0
     /\ IsPre(Take(buf, z - 1), full)
     /\ Len(full) + 5 <= Len(buf) => z - 1 = Len(full)
(* ------------------------------ C20 --------------------------------------- *)
(* maps as sets of <<key, value>>; later writes win *)
Put(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
PutSplit(m, part, sep) == LET i == FirstOf(part, sep) IN
                          IF i = 0 THEN m ELSE Put(m, Take(part, i - 1), Drop(part, i))
Params(m, x) == FoldLeft(LAMBDA a, part : PutSplit(a, part, 61), m, SplitBy(x, LAMBDA c : c = 38))
(* lines end with CR LF or at the end of the text; an empty line ends the headers *)
RECURSIVE Headers(_, _)
Headers(m, x) ==
  IF x = <<>> THEN m
  ELSE LET RECURSIVE CrLf(_)
           CrLf(i) == IF i >= Len(x) THEN 0 ELSE IF x[i] = 13 /\ x[i + 1] = 10 THEN i ELSE CrLf(i + 1)
           e == CrLf(1)
           line == IF e = 0 THEN x ELSE Take(x, e - 1)
       IN IF line = <<>> THEN m
          ELSE Headers(PutSplit(m, line, 58), IF e = 0 THEN <<>> ELSE Drop(x, e + 1))
=============================================================================
