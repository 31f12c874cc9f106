------------------------------- MODULE Getopt -------------------------------
(* What a command line asks for: GNU conventions (abbreviated long names,      *)
(* options in bundles, options after other words, "--" ends them).             *)
EXTENDS Bytes
Conf == 99  Pid == 112  Dm == 100  NoDm == 68
LongNames == (Conf :> <<99, 111, 110, 102, 105, 103>>) @@ (Pid :> <<112, 105, 100>>) @@ (Dm :> <<100, 97, 101, 109, 111, 110>>) @@ (NoDm :> <<110, 111, 45, 100, 97, 101, 109, 111, 110>>)
TakesArg(c) == c \in {Conf, Pid}
Nothing == [config |-> <<>>, pid |-> <<>>, daemon |-> 0]           \* no value, or one value in brackets
Bad == [fail |-> TRUE, want |-> Nothing]
Give(w, c, v) == CASE c = Conf -> [w EXCEPT !.config = <<v>>] [] c = Pid -> [w EXCEPT !.pid = <<v>>] [] c = Dm -> [w EXCEPT !.daemon = 1] [] c = NoDm -> [w EXCEPT !.daemon = 0]
Meant(name) == LET full == {c \in DOMAIN LongNames : LongNames[c] = name} IN IF full # {} THEN full ELSE {c \in DOMAIN LongNames : Starts(LongNames[c], name)}
RECURSIVE Parse(_, _, _)
RECURSIVE Bundle(_, _, _, _)
(* the words from i on, given what was wanted so far *)
Parse(a, i, w) ==
  IF i > Len(a) THEN [fail |-> FALSE, want |-> w]
  ELSE LET x == a[i] IN
  IF x = <<45, 45>> THEN [fail |-> FALSE, want |-> w]
  ELSE IF Len(x) > 2 /\ x[1] = 45 /\ x[2] = 45
  THEN LET eq == FirstOf(x, 61)
           name == IF eq = 0 THEN Drop(x, 2) ELSE SubSeq(x, 3, eq - 1)
           m == Meant(name) IN
       IF Cardinality(m) # 1 THEN Bad
       ELSE LET c == CHOOSE y \in m : TRUE IN
            IF TakesArg(c) THEN IF eq # 0 THEN Parse(a, i + 1, Give(w, c, Drop(x, eq)))
                                ELSE IF i = Len(a) THEN Bad ELSE Parse(a, i + 2, Give(w, c, a[i + 1]))
            ELSE IF eq # 0 THEN Bad ELSE Parse(a, i + 1, Give(w, c, <<>>))
  ELSE IF Len(x) > 1 /\ x[1] = 45 THEN Bundle(a, i, 2, w)
  ELSE Parse(a, i + 1, w)                                          \* some other word
Bundle(a, i, j, w) ==
  IF j > Len(a[i]) THEN Parse(a, i + 1, w)
  ELSE LET c == a[i][j] IN
       IF c \notin DOMAIN LongNames THEN Bad
       ELSE IF ~TakesArg(c) THEN Bundle(a, i, j + 1, Give(w, c, <<>>))
       ELSE IF j < Len(a[i]) THEN Parse(a, i + 1, Give(w, c, Drop(a[i], j)))
       ELSE IF i = Len(a) THEN Bad ELSE Parse(a, i + 2, Give(w, c, a[i + 1]))
Asked(args) == Parse(args, 1, Nothing)
=============================================================================
