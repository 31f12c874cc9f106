----------------------------- MODULE GetoptLaws -----------------------------
(* However it is spelled, in whatever order, a command line asks for the last  *)
(* value given for each option.                                                *)
EXTENDS Getopt
CONSTANTS Most
Vals == {<<>>, <<120>>, <<45, 100>>, <<45, 45>>, <<61, 61>>}
Intents == {<<c, v>> : c \in {Conf, Pid}, v \in Vals} \cup {<<c, <<>>>> : c \in {Dm, NoDm}}
(* a name, in full or cut *)
Cuts(c) == {<<45, 45>> \o Take(LongNames[c], n) : n \in {1, 2, Len(LongNames[c])}}
Spellings(x) ==
  LET c == x[1]  v == x[2] IN
  IF TakesArg(c) THEN {<<<<45, c>>, v>>} \cup (IF v # <<>> THEN {<<<<45, c>> \o v>>} ELSE {}) \cup {<<n \o <<61>> \o v>> : n \in Cuts(c)} \cup {<<n, v>> : n \in Cuts(c)}
  ELSE {<<<<45, c>>>>} \cup {<<n>> : n \in Cuts(c)}
Words == {<<119>>, <<45>>, <<>>, <<100>>}
VARIABLES args, want, n
vars == <<args, want, n>>
Init == args = <<>> /\ want = Nothing /\ n = 0
Option == \E x \in Intents : \E s \in Spellings(x) : args' = args \o s /\ want' = Give(want, x[1], x[2])
Word == \E w \in Words : args' = Append(args, w) /\ want' = want
Bundled == \E c \in {Dm, NoDm}, x \in Intents :
             LET s == <<45, c, x[1]>> IN
             args' = args \o (IF TakesArg(x[1]) THEN <<s, x[2]>> ELSE <<s>>) /\ want' = Give(Give(want, c, <<>>), x[1], x[2])
Next == n < Most /\ n' = n + 1 /\ (Option \/ Word \/ Bundled)
Spec == Init /\ [][Next]_vars
Laws ==
  /\ Asked(args) = [fail |-> FALSE, want |-> want]
  /\ Asked(args \o <<<<45, 45>>, <<45, 120>>, <<45, 68>>>>) = [fail |-> FALSE, want |-> want]     \* what follows the end is left alone
  /\ \A bad \in {<<45, 120>>, <<45, 45, 120>>, <<45, 100, 120>>, <<45, 45, 100, 61>>, <<45, 45, 61>>, <<45, 99>>, <<45, 45, 112, 105, 100>>} : Asked(Append(args, bad)).fail
=============================================================================
