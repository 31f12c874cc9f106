------------------------------ MODULE XmlBind ------------------------------
(* C26: what the members of a binding hold after a document was loaded.        *)
(* A binding is a sequence of slots [n name, ty type, it item type, sub slots];*)
(* the name <<>> stands for the text of the element itself.                    *)
EXTENDS Bytes
Lists == {"list", "vec"}
RECURSIVE Fresh(_, _)
Fresh(ty, sub) == IF ty = "st" THEN [i \in 1..Len(sub) |-> Fresh(sub[i].ty, sub[i].sub)] ELSE <<>>   \* a scalar not set, an empty list
RECURSIVE Occur(_, _, _, _, _)
(* one more occurrence e of the element (or attribute) a member is bound to *)
In(sub, v, e) ==
  LET One(w, c) == [i \in 1..Len(sub) |-> IF sub[i].n # <<>> /\ sub[i].n = c.n THEN Occur(sub[i].ty, sub[i].it, sub[i].sub, w[i], c) ELSE w[i]]
      attrs == [i \in 1..Len(e.a) |-> [n |-> e.a[i][1], a |-> <<>>, k |-> <<>>, own |-> e.a[i][2], tail |-> e.a[i][2]]]
      w == FoldLeft(One, FoldLeft(One, v, attrs), e.k)
  IN [i \in 1..Len(sub) |-> IF sub[i].n = <<>> THEN <<e.own, e.tail>> ELSE w[i]]
Occur(ty, it, sub, v, e) ==
  IF ty = "st" THEN In(sub, v, e)
  ELSE IF ty \in Lists THEN Append(v, Occur(it, "", sub, Fresh(it, sub), e))
  ELSE <<e.own, e.tail>>
(* the members of the document object: bound to the root element *)
Bind(sch, root) == LET v == Fresh("st", sch) IN [i \in 1..Len(sch) |-> IF sch[i].n = root.n THEN Occur(sch[i].ty, sch[i].it, sch[i].sub, v[i], root) ELSE v[i]]
(* ---- values ---- *)
TrimWs(s) == LET W(c) == c \in {9, 10, 13, 32} i == FirstFrom(s, 1, LAMBDA c : ~W(c)) j == LastFrom(s, Len(s), LAMBDA c : ~W(c)) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, j)
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Digits(s) == IF Signed(s) THEN Tail(s) ELSE s
Neg(s) == s # <<>> /\ s[1] = 45
IsInt(s) == Digits(s) # <<>> /\ AllDigits(Digits(s))
Canon(s) == LET d == StripZeros(Digits(s)) IN IF Neg(s) /\ d # <<48>> THEN <<45>> \o d ELSE d
Top(ty) == CASE ty = "i32" -> <<50,49,52,55,52,56,51,54,52,55>> [] ty = "u32" -> <<52,50,57,52,57,54,55,50,57,53>> [] ty = "u8" -> <<50,53,53>>
             [] ty = "i64" -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>> [] ty = "u64" -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
Bottom(ty) == CASE ty = "i32" -> <<50,49,52,55,52,56,51,54,52,56>> [] ty = "i64" -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>> [] OTHER -> <<48>>
InRange(ty, s) == NumLeq(StripZeros(Digits(s)), IF Neg(s) THEN Bottom(ty) ELSE Top(ty))
Yes == {<<49>>, <<116,114,117,101>>, <<111,110>>, <<121,101,115>>}
No == {<<48>>, <<102,97,108,115,101>>, <<111,102,102>>, <<110,111>>}
(* quarters: a decimal with up to six digits before the point and .0 .25 .5 .75 after it *)
Quarter == [f \in {<<>>, <<48>>, <<50,53>>, <<53>>, <<55,53>>, <<48,48>>, <<53,48>>} |-> CASE f = <<50,53>> -> 1 [] f \in {<<53>>, <<53,48>>} -> 2 [] f = <<55,53>> -> 3 [] OTHER -> 0]
RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE NatOf(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
IsDec(s) == LET d == Digits(s) p == FirstOf(d, 46) a == IF p = 0 THEN d ELSE Take(d, p - 1) f == IF p = 0 THEN <<>> ELSE Drop(d, p) IN
            a # <<>> /\ AllDigits(a) /\ Len(a) <= 6 /\ f \in DOMAIN Quarter
Dec4(s) == LET d == Digits(s) p == FirstOf(d, 46) a == IF p = 0 THEN d ELSE Take(d, p - 1) f == IF p = 0 THEN <<>> ELSE Drop(d, p)
               v == NatOf(a) * 4 + Quarter[f] IN IF Neg(s) THEN -v ELSE v
(* may the member of that type hold obs (text of the value) for that text? *)
Holds(ty, text, obs) ==
  LET s == TrimWs(text) IN
  CASE ty = "str" -> obs = text
    [] ty \in {"i32", "u32", "i64", "u64", "u8"} -> IsInt(s) /\ InRange(ty, s) => obs = Canon(s)
    [] ty = "b" -> LET w == LowSeq(text) IN (w \in Yes => obs = <<49>>) /\ (w \in No => obs = <<48>>)
    [] ty \in {"flt", "dbl", "ld"} -> IsDec(s) => obs = DecNum(Dec4(s))
Initial(ty) == CASE ty = "str" -> <<105,110,105,116>> [] ty = "b" -> <<49>> [] ty \in {"flt", "dbl", "ld"} -> <<51,48,56>> [] OTHER -> <<55,55>>
RECURSIVE Match(_, _, _, _, _)
Match(ty, it, sub, v, obs) ==
  IF ty = "st" THEN Len(obs) = Len(sub) /\ \A i \in 1..Len(sub) : Match(sub[i].ty, sub[i].it, sub[i].sub, v[i], obs[i])
  ELSE IF ty \in Lists THEN Len(obs) = Len(v) /\ \A i \in 1..Len(v) : Match(it, "", sub, v[i], obs[i])
  ELSE IF v = <<>> THEN obs = Initial(ty)
  ELSE Holds(ty, v[1], obs) \/ Holds(ty, v[2], obs)
=============================================================================
