-------------------------------- MODULE XmlMC --------------------------------
(* The binding mechanism - a stack of levels walked from the top at every       *)
(* attribute, start and end of an element - as a transition system over all     *)
(* small documents; what it leaves in the members is what XmlBind defines.      *)
EXTENDS XmlBind
CONSTANTS MaxNodes, MaxDepth
Sl(n, ty, it, sub) == [n |-> n, ty |-> ty, it |-> it, sub |-> sub]
a == <<97>>
b == <<98>>
Leaf == << Sl(a, "str", "", <<>>), Sl(b, "list", "str", <<>>), Sl(<<>>, "str", "", <<>>) >>
Bindings == { << Sl(a, "st", "", << Sl(a, "str", "", <<>>), Sl(b, "st", "", Leaf) >>) >>,
              << Sl(a, "st", "", << Sl(a, "list", "st", Leaf), Sl(b, "str", "", <<>>) >>) >>,
              << Sl(a, "list", "st", Leaf), Sl(b, "str", "", <<>>) >>,
              << Sl(a, "st", "", << Sl(b, "list", "st", << Sl(a, "list", "str", <<>>), Sl(b, "list", "st", Leaf) >>) >>) >>,
              << Sl(b, "list", "str", <<>>) >> }
VARIABLES sch, open, levels, mem, cur, root, nodes
vars == <<sch, open, levels, mem, cur, root, nodes>>
(* the members are determined from level i on with the text collected so far: <<members, levels>> *)
RECURSIVE Det(_, _, _, _, _), SetV(_, _, _, _, _, _, _)
Det(sub, v, lv, i, x) ==
  LET One(acc, k) == LET s == sub[k] IN
        IF i > Len(lv) THEN (IF s.n = <<>> THEN LET r == SetV(s.ty, s.it, s.sub, acc[1][k], acc[2], i, x) IN << [acc[1] EXCEPT ![k] = r[1]], r[2] >> ELSE acc)
        ELSE IF s.n = lv[i].key THEN LET r == SetV(s.ty, s.it, s.sub, acc[1][k], acc[2], i + 1, x) IN << [acc[1] EXCEPT ![k] = r[1]], r[2] >>
        ELSE acc
  IN FoldLeft(One, <<v, lv>>, [k \in 1..Len(sub) |-> k])
SetV(ty, it, sub, v, lv, i, x) ==
  IF ty = "st" THEN Det(sub, v, lv, i, x)
  ELSE IF ty \in Lists
  THEN LET w == IF lv[i-1].pushed THEN v ELSE Append(v, Fresh(it, sub))
           r == SetV(it, "", sub, w[Len(w)], [lv EXCEPT ![i-1].pushed = TRUE], i, x)
       IN << [w EXCEPT ![Len(w)] = r[1]], r[2] >>
  ELSE << <<x, x>>, lv >>
L(k) == [key |-> k, pushed |-> FALSE]
Init == sch \in Bindings /\ open = <<>> /\ levels = <<>> /\ mem = Fresh("st", sch) /\ cur = <<>> /\ root = <<>> /\ nodes = 0
Step(lv, m, x) == Det(sch, m, lv, 1, x)
Begin(n, at) ==
  LET lv == Append(levels, L(n))
      r1 == IF at = <<>> THEN <<mem, lv>> ELSE LET q == Step(Append(lv, L(at[1][1])), mem, at[1][2]) IN <<q[1], SubSeq(q[2], 1, Len(lv))>>
      q2 == Step(Append(r1[2], L(<<>>)), r1[1], <<>>)
  IN /\ mem' = q2[1] /\ levels' = SubSeq(q2[2], 1, Len(lv)) /\ cur' = <<>>
     /\ open' = Append(open, [n |-> n, a |-> at, k |-> <<>>, own |-> <<>>, tail |-> <<>>])
OpenTag == /\ root = <<>> /\ nodes < MaxNodes /\ Len(open) < MaxDepth /\ nodes' = nodes + 1
           /\ \E n \in {a, b}, at \in {<<>>} \cup {<< <<n2, <<3>>>> >> : n2 \in {a, b}} : Begin(n, at)
           /\ UNCHANGED <<sch, root>>
Char == /\ open # <<>> /\ Len(open[Len(open)].own) < 2 /\ LET x == <<Len(open[Len(open)].own) + 10 * nodes>> IN cur' = cur \o x /\ open' = [open EXCEPT ![Len(open)].own = @ \o x, ![Len(open)].tail = @ \o x]
        /\ UNCHANGED <<sch, levels, mem, root, nodes>>
CloseTag == LET d == Len(open) r == Step(levels, mem, cur) IN
            /\ d > 0 /\ mem' = r[1] /\ levels' = SubSeq(r[2], 1, d - 1) /\ cur' = <<>>
            /\ IF d = 1 THEN root' = <<open[1]>> /\ open' = <<>>
               ELSE root' = root /\ open' = [SubSeq(open, 1, d - 1) EXCEPT ![d-1] = [@ EXCEPT !.k = Append(@, open[d]), !.tail = <<>>]]
            /\ UNCHANGED <<sch, nodes>>
Next == OpenTag \/ Char \/ CloseTag
Spec == Init /\ [][Next]_vars
RECURSIVE Same(_, _, _, _, _)
Same(ty, it, sub, v, m) ==
  IF ty = "st" THEN \A i \in 1..Len(sub) : Same(sub[i].ty, sub[i].it, sub[i].sub, v[i], m[i])
  ELSE IF ty \in Lists THEN Len(v) = Len(m) /\ \A i \in 1..Len(v) : Same(it, "", sub, v[i], m[i])
  ELSE (v = <<>>) = (m = <<>>) /\ (v # <<>> => m[1] = v[2])
Bound == root # <<>> => Same("st", "", sch, Bind(sch, root[1]), mem)
LevelsFit == Len(levels) = Len(open)
=============================================================================
