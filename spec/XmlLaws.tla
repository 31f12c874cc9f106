------------------------------ MODULE XmlLaws ------------------------------
(* Reading back a rendered tree gives the tree, in every spelling; a proper     *)
(* prefix that ends before the root does is never a document.                   *)
EXTENDS Xml
VARIABLE cs
Esc(s) == Concat([i \in 1..Len(s) |-> CASE s[i] = 60 -> <<38,108,116,59>> [] s[i] = 38 -> <<38,35,51,56,59>> [] s[i] = 34 -> <<38,35,120,50,50,59>> [] s[i] = 93 -> <<38,35,57,51,59>> [] s[i] = 10 -> <<38,35,49,48,59>> [] OTHER -> <<s[i]>>])
RECURSIVE Render(_, _)
Render(e, style) ==
  LET at == Concat([i \in 1..Len(e.a) |-> <<32>> \o e.a[i][1] \o <<61, 34>> \o Esc(e.a[i][2]) \o <<34>>])
      tx(s) == IF s = <<>> THEN <<>> ELSE IF style = 1 THEN CDATA \o s \o <<93, 93, 62>> ELSE Esc(s)
      head == Take(e.own, Len(e.own) - Len(e.tail))
      body == tx(head) \o Concat([i \in 1..Len(e.k) |-> Render(e.k[i], style)]) \o tx(e.tail)
      sp == IF style = 2 THEN <<10>> ELSE <<>>
  IN IF body = <<>> /\ style # 2 THEN <<60>> \o e.n \o at \o <<47, 62>>
     ELSE <<60>> \o e.n \o at \o sp \o <<62>> \o (IF style = 2 THEN <<60,33,45,45,32,45,62,32,45,45,62>> ELSE <<>>) \o body \o <<60, 47>> \o e.n \o sp \o <<62>>
Txs == {<<>>, <<97>>, <<60, 38>>, <<93, 93>>, <<10, 34>>, <<195, 169>>}
Nms == {<<97>>, <<58, 98, 45>>}
AttrSets == {<<>>} \cup {<< <<n, v>> >> : n \in Nms, v \in {<<>>, <<60, 38, 34, 10>>}} \cup {<< << <<97>>, <<49>> >>, << <<58, 98, 45>>, <<50>> >> >>}
Leafs == {[n |-> n, a |-> a, k |-> <<>>, own |-> x, tail |-> x] : n \in Nms, a \in AttrSets, x \in Txs}
Small == {l \in Leafs : l.a = <<>> /\ l.own \in {<<>>, <<60, 38>>}}
Trees == Leafs \cup {[n |-> n, a |-> <<>>, k |-> k, own |-> h \o x, tail |-> x] : n \in Nms, k \in {<<l>> : l \in Leafs} \cup {<<l, m>> : l \in Small, m \in Small}, h \in {<<>>, <<97>>}, x \in {<<>>, <<93, 93>>}}
Init == cs \in {[e |-> e, s |-> s, p |-> p, go |-> FALSE] : e \in Trees, s \in 0..2, p \in {<<>>, <<239, 187, 191>>, XMLDECL \o V10 \o <<63, 62>>, <<60, 63, 97, 63, 62, 32>>}}
Next == cs' = [cs EXCEPT !.go = TRUE]
Doc == cs.p \o Render(cs.e, cs.s)
ReadsBack == cs.go => Parse(Doc) = [st |-> "ok", root |-> <<cs.e>>]
CutShort == cs.go /\ cs.p = <<>> => \A n \in 0..(Len(Doc) - 1) : Parse(Take(Doc, n)).st # "ok"
Junk == cs.go => (Parse(Doc \o <<97>>).st = "bad" /\ Parse(Doc \o Doc).st \in {"bad", "open"} /\ Parse(Doc \o <<10>>).st = "ok")
Spec == Init /\ [][Next]_cs
=============================================================================
