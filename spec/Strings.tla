------------------------------ MODULE Strings ------------------------------
(* C23 searches and spans, C24 numbers and tokens.  Positions count from 0;    *)
(* -1 stands for "not there".                                                  *)
EXTENDS Bytes
Eq(a, b, ci) == IF ci THEN Low(a) = Low(b) ELSE a = b
In(c, n, ci) == \E i \in 1..Len(n) : Eq(c, n[i], ci)
FirstPos(s, P(_)) == FirstFrom(s, 1, P) - 1
LastPos(s, P(_)) == LastFrom(s, Len(s), P) - 1
Chr(s, c, ci) == FirstPos(s, LAMBDA x : Eq(x, c, ci))
RevChr(s, c, ci) == LastPos(s, LAMBDA x : Eq(x, c, ci))
Chp(s, c, ci) == LET i == Chr(s, c, ci) IN IF i < 0 THEN Len(s) ELSE i
MatchAt(s, n, i, ci) == /\ i + Len(n) <= Len(s)
                        /\ \A j \in 1..Len(n) : Eq(s[i + j], n[j], ci)
Sub(s, n, ci) ==
  LET RECURSIVE G(_)
      G(i) == IF i + Len(n) > Len(s) THEN -1 ELSE IF MatchAt(s, n, i, ci) THEN i ELSE G(i + 1)
  IN G(0)
(* length of the longest run at the beginning whose bytes all satisfy P *)
Run(s, P(_)) == LET i == FirstFrom(s, 1, LAMBDA x : ~P(x)) IN IF i = 0 THEN Len(s) ELSE i - 1
RevRun(s, P(_)) == Len(s) - LastFrom(s, Len(s), LAMBDA x : ~P(x))
Spn(s, n, ci, in, rev) ==
  IF rev THEN RevRun(s, LAMBDA x : In(x, n, ci) = in) ELSE Run(s, LAMBDA x : In(x, n, ci) = in)
(* ------------------------------ C24 --------------------------------------- *)
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
(* what the printed result must be *)
AtouOK(s, r) == LET z == StripZeros(s) IN
                IF ~AllDigits(s) THEN r = <<48>>
                ELSE NumLeq(z, MaxU64) => r = z
AtoiOK(s, r) ==
  LET neg == s # <<>> /\ s[1] = 45
      d == IF neg THEN Tail(s) ELSE s
      z == StripZeros(d)
  IN IF ~AllDigits(d) THEN r = <<48>>
     ELSE NumLeq(z, IF neg THEN MinI64 ELSE MaxI64) => r = IF neg /\ z # <<48>> THEN <<45>> \o z ELSE z
Split(s, d, ignore) ==
  LET all == SplitBy(s, LAMBDA c : In(c, d, FALSE))
  IN IF ignore THEN SelectSeq(all, LAMBDA p : p # <<>>) ELSE all
Items(s) == IF s = <<>> THEN {} ELSE Members(SplitBy(s, LAMBDA c : c = 44))
Numbers(s) == {StripZeros(x) : x \in {y \in Items(s) : y # <<>> /\ AllDigits(y)}}
Blank(c) == c \in {32, 9, 10, 13}
Words(s) == SelectSeq(SplitBy(s, Blank), LAMBDA p : p # <<>>)
=============================================================================
