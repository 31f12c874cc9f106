-------------------------------- MODULE Xml --------------------------------
(* C27: which texts are well-formed documents, and the tree they denote.       *)
(* XML 1.0 over UTF-8 without document type declarations; what is outside that *)
(* (DTD, other encodings, names with non-ASCII letters, unusual declarations)  *)
(* is "open": the specification does not say.                                  *)
EXTENDS Bytes
At(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE -1
WS(c) == c \in {9, 10, 13, 32}
NameStart(c) == IsAlpha(c) \/ c \in {58, 95}
NameChar(c) == NameStart(c) \/ IsDigit(c) \/ c \in {45, 46}
High(c) == c >= 128
Here(x, i, s) == i + Len(s) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(s) - 1) = s
SkipWs(x, i) == LET j == FirstFrom(x, i, LAMBDA c : ~WS(c)) IN IF i > Len(x) THEN i ELSE IF j = 0 THEN Len(x) + 1 ELSE j
RECURSIVE NameEnd(_, _)
NameEnd(x, i) == IF NameChar(At(x, i)) THEN NameEnd(x, i + 1) ELSE i
RECURSIVE Find(_, _, _)
Find(x, i, s) == LET j == FirstFrom(x, i, LAMBDA c : c = s[1]) IN IF j = 0 THEN 0 ELSE IF Here(x, j, s) THEN j ELSE Find(x, j + 1, s)
(* ---- characters ---- *)
Utf(a, c) ==
  IF a.bad THEN a
  ELSE IF a.n > 0 THEN IF c < a.lo \/ c > a.hi THEN [a EXCEPT !.bad = TRUE]
       ELSE [n |-> a.n - 1, lo |-> 128, hi |-> IF a.ef /\ a.n = 2 /\ c = 191 THEN 189 ELSE 191, ef |-> FALSE, bad |-> FALSE]
  ELSE IF c < 128 THEN [a EXCEPT !.bad = c < 32 /\ ~WS(c)]
  ELSE CASE c \in 194..223 -> [n |-> 1, lo |-> 128, hi |-> 191, ef |-> FALSE, bad |-> FALSE]
         [] c \in 224..239 -> [n |-> 2, lo |-> IF c = 224 THEN 160 ELSE 128, hi |-> IF c = 237 THEN 159 ELSE 191, ef |-> c = 239, bad |-> FALSE]
         [] c \in 240..244 -> [n |-> 3, lo |-> IF c = 240 THEN 144 ELSE 128, hi |-> IF c = 244 THEN 143 ELSE 191, ef |-> FALSE, bad |-> FALSE]
         [] OTHER -> [a EXCEPT !.bad = TRUE]
CharsOK(x) == LET r == FoldLeft(Utf, [n |-> 0, lo |-> 128, hi |-> 191, ef |-> FALSE, bad |-> FALSE], x) IN ~r.bad /\ r.n = 0
Encode(n) == IF n < 128 THEN <<n>>
             ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
             ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
             ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
XmlChar(n) == n \in {9, 10, 13} \/ n \in 32..55295 \/ n \in 57344..65533 \/ n \in 65536..1114111
Number(s, b) == FoldLeft(LAMBDA a, c : IF a > 2000000 THEN a ELSE a * b + HexVal(c), 0, s)
(* the characters a reference &body; stands for; <<>> when there is no such reference *)
Entity(b) ==
  CASE b = <<108, 116>> -> <<60>> [] b = <<103, 116>> -> <<62>> [] b = <<97, 109, 112>> -> <<38>>
    [] b = <<97, 112, 111, 115>> -> <<39>> [] b = <<113, 117, 111, 116>> -> <<34>>
    [] Len(b) > 1 /\ b[1] = 35 ->
         LET hex == b[2] = 120 d == Drop(b, IF hex THEN 2 ELSE 1)
             ok == d # <<>> /\ \A i \in 1..Len(d) : IF hex THEN IsHex(d[i]) ELSE IsDigit(d[i])
             n == Number(d, IF hex THEN 16 ELSE 10)
         IN IF ok /\ XmlChar(n) THEN Encode(n) ELSE <<>>
    [] OTHER -> <<>>
(* line ends *)
Lf(s) == IF 13 \notin Members(s) THEN s
         ELSE FoldLeft(LAMBDA a, c : [o |-> IF c = 13 THEN Append(a.o, 10) ELSE IF c = 10 /\ a.cr THEN a.o ELSE Append(a.o, c), cr |-> c = 13], [o |-> <<>>, cr |-> FALSE], s).o
Blank(s) == LET l == Lf(s) IN [i \in 1..Len(l) |-> IF WS(l[i]) THEN 32 ELSE l[i]]
(* an attribute value: <<ok, value>> *)
RECURSIVE Value(_, _)
Value(v, acc) ==
  LET j == FirstOf(v, 38) IN
  IF j = 0 THEN <<TRUE, acc \o Blank(v)>>
  ELSE LET k == FirstFrom(v, j, LAMBDA c : c = 59) IN
       IF k = 0 THEN <<FALSE, <<>>>>
       ELSE LET e == Entity(SubSeq(v, j + 1, k - 1)) IN IF e = <<>> THEN <<FALSE, <<>>>> ELSE Value(Drop(v, k), acc \o Blank(Take(v, j - 1)) \o e)
(* attributes from p on: [st, i, a, empty] *)
Bad == [st |-> "bad"]
Open == [st |-> "open"]
NameFault(x, i) == IF High(At(x, i)) THEN Open ELSE Bad
RECURSIVE Attrs(_, _, _)
Attrs(x, p, a) ==
  LET q == SkipWs(x, p) IN
  IF At(x, q) = 62 THEN [st |-> "ok", i |-> q + 1, a |-> a, empty |-> FALSE]
  ELSE IF At(x, q) = 47 THEN IF At(x, q + 1) = 62 THEN [st |-> "ok", i |-> q + 2, a |-> a, empty |-> TRUE] ELSE Bad
  ELSE IF q = p \/ ~NameStart(At(x, q)) THEN NameFault(x, q)
  ELSE LET e == NameEnd(x, q) r == SkipWs(x, e) IN
       IF At(x, r) # 61 THEN NameFault(x, r)
       ELSE LET v == SkipWs(x, r + 1) qu == At(x, v) IN
            IF qu \notin {34, 39} THEN Bad
            ELSE LET c == FirstFrom(x, v + 1, LAMBDA z : z = qu) IN
                 IF c = 0 THEN Bad
                 ELSE LET raw == SubSeq(x, v + 1, c - 1) val == Value(raw, <<>>) nm == SubSeq(x, q, e - 1) IN
                      IF 60 \in Members(raw) \/ ~val[1] \/ \E i \in 1..Len(a) : a[i][1] = nm THEN Bad
                      ELSE Attrs(x, c + 1, Append(a, <<nm, val[2]>>))
(* ---- documents ---- *)
(* own: all character data of the element; tail: what follows its last child *)
Node(n, a) == [n |-> n, a |-> a, k |-> <<>>, own |-> <<>>, tail |-> <<>>]
Start(x) == [st |-> "run", i |-> IF Here(x, 1, <<239, 187, 191>>) THEN 4 ELSE 1, stack |-> <<>>, root |-> <<>>]
Text(s, b, i) == [s EXCEPT !.i = i, !.stack[Len(s.stack)].own = @ \o b, !.stack[Len(s.stack)].tail = @ \o b]
Close(s, i) == LET d == Len(s.stack) n == s.stack[d] IN
               IF d = 1 THEN [s EXCEPT !.i = i, !.stack = <<>>, !.root = <<n>>]
               ELSE [s EXCEPT !.i = i, !.stack = [SubSeq(s.stack, 1, d - 1) EXCEPT ![d - 1] = [@ EXCEPT !.k = Append(@, n), !.tail = <<>>]]]
Stop(s, w) == [s EXCEPT !.st = w]
Pi(x, s) ==
  LET i == s.i + 2 e == NameEnd(x, i) nm == SubSeq(x, i, e - 1) z == Find(x, e, <<63, 62>>) IN
  IF ~NameStart(At(x, i)) THEN Stop(s, NameFault(x, i).st)
  ELSE IF High(At(x, e)) THEN Stop(s, "open")
  ELSE IF z = 0 \/ (z # e /\ ~WS(At(x, e))) THEN Stop(s, "bad")
  ELSE IF LowSeq(nm) = <<120, 109, 108>> THEN Stop(s, IF nm = LowSeq(nm) THEN "bad" ELSE "open")
  ELSE [s EXCEPT !.i = z + 2]
Comment(x, s) == LET z == Find(x, s.i + 4, <<45, 45>>) IN IF z = 0 \/ At(x, z + 2) # 62 THEN Stop(s, "bad") ELSE [s EXCEPT !.i = z + 3]
Tag(x, s) ==
  LET e == NameEnd(x, s.i + 1) nm == SubSeq(x, s.i + 1, e - 1) a == Attrs(x, e, <<>>) IN
  IF ~NameStart(At(x, s.i + 1)) THEN Stop(s, NameFault(x, s.i + 1).st)
  ELSE IF a.st # "ok" THEN Stop(s, a.st)
  ELSE LET s2 == [s EXCEPT !.i = a.i, !.stack = Append(@, Node(nm, a.a))] IN IF a.empty THEN Close(s2, a.i) ELSE s2
EndTag(x, s) ==
  LET e == NameEnd(x, s.i + 2) z == SkipWs(x, e) IN
  IF ~NameStart(At(x, s.i + 2)) THEN Stop(s, NameFault(x, s.i + 2).st)
  ELSE IF At(x, z) # 62 THEN Stop(s, NameFault(x, z).st)
  ELSE IF SubSeq(x, s.i + 2, e - 1) # s.stack[Len(s.stack)].n THEN Stop(s, "bad")
  ELSE Close(s, z + 1)
CDATA == <<60, 33, 91, 67, 68, 65, 84, 65, 91>>
DOCTYPE == <<60, 33, 68, 79, 67, 84, 89, 80, 69>>
XMLDECL == <<60, 63, 120, 109, 108>>
Content(x, s) ==
  LET i == s.i c == x[i] IN
  CASE c = 60 /\ Here(x, i, <<60, 47>>) -> EndTag(x, s)
    [] c = 60 /\ Here(x, i, <<60, 63>>) -> Pi(x, s)
    [] c = 60 /\ Here(x, i, <<60, 33, 45, 45>>) -> Comment(x, s)
    [] c = 60 /\ Here(x, i, CDATA) -> LET z == Find(x, i + 9, <<93, 93, 62>>) IN IF z = 0 THEN Stop(s, "bad") ELSE Text(s, Lf(SubSeq(x, i + 9, z - 1)), z + 3)
    [] c = 60 -> IF At(x, i + 1) = 33 THEN Stop(s, "bad") ELSE Tag(x, s)
    [] c = 38 -> LET k == FirstFrom(x, i, LAMBDA z : z = 59) e == IF k = 0 THEN <<>> ELSE Entity(SubSeq(x, i + 1, k - 1)) IN
                 IF e = <<>> THEN Stop(s, "bad") ELSE Text(s, e, k + 1)
    [] OTHER -> LET z == FirstFrom(x, i, LAMBDA y : y \in {60, 38}) run == SubSeq(x, i, IF z = 0 THEN Len(x) ELSE z - 1) IN
                IF z = 0 \/ Find(run, 1, <<93, 93, 62>>) # 0 THEN Stop(s, "bad") ELSE Text(s, Lf(run), z)
(* before and after the root element *)
Outside(x, s) ==
  LET i == s.i IN
  CASE WS(x[i]) -> [s EXCEPT !.i = SkipWs(x, i)]
    [] Here(x, i, <<60, 63>>) -> Pi(x, s)
    [] Here(x, i, <<60, 33, 45, 45>>) -> Comment(x, s)
    [] Here(x, i, DOCTYPE) /\ s.root = <<>> -> Stop(s, "open")
    [] x[i] = 60 /\ s.root = <<>> -> IF At(x, i + 1) \in {33, 47} THEN Stop(s, "bad") ELSE Tag(x, s)
    [] OTHER -> Stop(s, "bad")
RECURSIVE Run(_, _)
Run(x, s) ==
  IF s.st # "run" THEN s
  ELSE IF s.i > Len(x) THEN Stop(s, IF s.stack = <<>> /\ s.root # <<>> THEN "ok" ELSE "bad")
  ELSE Run(x, IF s.stack = <<>> THEN Outside(x, s) ELSE Content(x, s))
V10 == <<32,118,101,114,115,105,111,110,61,34,49,46,48,34>>                                   \* version="1.0"
ENC == <<32,101,110,99,111,100,105,110,103,61,34,85,84,70,45,56,34>>                           \* encoding="UTF-8"
DeclOK(d) == d \in {V10, V10 \o ENC}
Prolog(x, s) ==
  IF Here(x, s.i, XMLDECL) /\ WS(At(x, s.i + 5))
  THEN LET z == Find(x, s.i, <<63, 62>>) IN IF z = 0 THEN Stop(s, "bad") ELSE IF DeclOK(SubSeq(x, s.i + 5, z - 1)) THEN [s EXCEPT !.i = z + 2] ELSE Stop(s, "open")
  ELSE s
(* [st |-> "ok" | "bad" | "open", root |-> <<tree>>] *)
Parse(x) ==
  IF At(x, 1) >= 254 \/ At(x, 1) = 0 \/ At(x, 2) = 0 THEN [st |-> "open", root |-> <<>>]
  ELSE IF ~CharsOK(x) THEN [st |-> "bad", root |-> <<>>]
  ELSE LET r == Run(x, Prolog(x, Start(x))) IN [st |-> r.st, root |-> r.root]
=============================================================================
