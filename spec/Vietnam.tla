------------------------------ MODULE Vietnam ------------------------------
(* C35.  A text is a byte string; Chars cuts it into UTF-8 characters, the     *)
(* last of which may be incomplete.                                            *)
EXTENDS Bytes
CharLen(c) == IF c < 128 THEN 1 ELSE IF c >= 240 THEN 4 ELSE IF c >= 224 THEN 3 ELSE 2
Code(x) == CASE Len(x) = 1 -> x[1]
             [] Len(x) = 2 -> ((x[1] % 32) * 64) + (x[2] % 64)
             [] Len(x) = 3 -> ((x[1] % 16) * 4096) + ((x[2] % 64) * 64) + (x[3] % 64)
             [] Len(x) = 4 -> ((x[1] % 8) * 262144) + ((x[2] % 64) * 4096) + ((x[3] % 64) * 64) + (x[4] % 64)
(* base letters: upper case and lower case tables of precomposed Vietnamese letters *)
Alternate(a, b) == {x \in a..b : (x - a) % 2 = 0}
UpTable == ( [c \in {192, 193, 194, 195, 258} \cup Alternate(7840, 7862) |-> 65]        \* A
          @@ [c \in {208, 272} |-> 68]                                              \* D
          @@ [c \in {200, 201, 202} \cup Alternate(7864, 7878) |-> 69]                  \* E
          @@ [c \in {204, 205, 296, 7880, 7882} |-> 73]                             \* I
          @@ [c \in {210, 211, 212, 213, 416} \cup Alternate(7884, 7906) |-> 79]        \* O
          @@ [c \in {217, 218, 360, 431} \cup Alternate(7908, 7920) |-> 85]             \* U
          @@ [c \in {221} \cup Alternate(7922, 7928) |-> 89] )                          \* Y
LowOf(c) == IF c < 256 THEN c + 32 ELSE c + 1
Base(c) == IF c \in DOMAIN UpTable THEN UpTable[c]
           ELSE UpTable[CHOOSE u \in DOMAIN UpTable : LowOf(u) = c] + 32
LowTable == [c \in {LowOf(u) : u \in DOMAIN UpTable} |-> Base(c)]
Table == UpTable @@ LowTable
Letters == DOMAIN Table
Combining(c) == c \in 768..879
Plain(x) == LET c == Code(x) IN
            IF Combining(c) THEN <<>> ELSE IF c \in Letters THEN <<Table[c]>> ELSE x
Strip(s) ==
  LET RECURSIVE G(_, _)
      G(i, acc) == IF i > Len(s) THEN acc
                   ELSE LET n == CharLen(s[i]) IN
                        IF i + n - 1 > Len(s) THEN acc \o Drop(s, i - 1)            \* incomplete: kept
                        ELSE G(i + n, acc \o Plain(SubSeq(s, i, i + n - 1)))
  IN G(1, <<>>)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
=============================================================================
