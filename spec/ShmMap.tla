-------------------------------- MODULE ShmMap --------------------------------
(* C09-C12: the shared hash map.                                               *)
(* State: geo  <<>> or the dimensions it was created with <<N, buckets, item>> *)
(*        m    the entries, a function key -> value                            *)
(*        rd, wr  processes holding the read / write lock explicitly           *)
(*        bad  a process died while it may have been changing the map: the     *)
(*             entries are unknown from then on, the locks are not             *)
(*        loc  per object: connected?                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty(nob) == [geo |-> <<>>, m |-> <<>>, rd |-> {}, wr |-> {}, bad |-> FALSE, loc |-> [o \in 1..nob |-> FALSE]]
Fin(c, p, s) == [st |-> s, ph |-> [c.ph EXCEPT ![p] = 1]]
If(b, S) == IF b THEN S ELSE {}
N(s) == s.geo[1]
(* single operations on the entries: <<result, entries>> *)
Ins(s, m, k, v) == IF k \in DOMAIN m THEN <<1, [m EXCEPT ![k] = v]>>
                   ELSE IF Cardinality(DOMAIN m) < N(s) THEN <<1, [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]>>
                   ELSE <<0, m>>
Del(m, k) == IF k \in DOMAIN m THEN <<1, [x \in DOMAIN m \ {k} |-> m[x]]>> ELSE <<0, m>>
RECURSIVE InsAll(_, _, _, _, _)
InsAll(s, m, l, i, r) == IF i > Len(l) THEN <<r, m>> ELSE LET x == Ins(s, m, l[i][1], l[i][2]) IN InsAll(s, x[2], l, i + 1, IF x[1] = 1 THEN r ELSE 0)
RECURSIVE DelAll(_, _, _, _)
DelAll(m, l, i, r) == IF i > Len(l) THEN <<r, m>> ELSE LET x == Del(m, l[i]) IN DelAll(x[2], l, i + 1, IF x[1] = 1 THEN r ELSE 0)
(* an operation that changes entries: x = <<result, entries>> *)
Change(op, c, p, x) == IF c.st.bad THEN {Fin(c, p, c.st)} ELSE If(op.pend \/ op.r = x[1], {Fin(c, p, [c.st EXCEPT !.m = x[2]])})
Look(op, c, p, b) == If(c.st.bad \/ op.pend \/ b, {Fin(c, p, c.st)})
Got(op, m) == IF op.kk \in DOMAIN m THEN op.r = 1 /\ op.o = <<m[op.kk]>> ELSE op.r = 0 /\ op.o = <<>>
Visited(op, m) == /\ Len(op.o) = Cardinality(DOMAIN m)
                  /\ {op.o[i][1] : i \in 1..Len(op.o)} = DOMAIN m
                  /\ \A i \in 1..Len(op.o) : op.o[i][2] = m[op.o[i][1]]
Free(s) == s.rd = {} /\ s.wr = {}        \* a writer may enter
Readable(s) == s.wr = {}                 \* a reader may enter
Writes == {"insert", "erase", "insertall", "eraseall", "clear", "lockw"}
Reads == {"read", "size", "iter", "lockr"}
Enters(op, s) == IF op.f \in Writes THEN Free(s) ELSE IF op.f \in Reads THEN Readable(s) ELSE TRUE
(* an exception: only for a process that was interrupted while waiting, and nothing happened *)
Threw(op) == ~op.pend /\ "thr" \in DOMAIN op /\ op.thr = 1
Effect(op, c, p) ==
  LET s == c.st IN
  CASE op.f \in {"insert", "uinsert"} -> Change(op, c, p, Ins(s, s.m, op.kk, op.v))
    [] op.f \in {"erase", "uerase"} -> Change(op, c, p, Del(s.m, op.kk))
    [] op.f = "insertall" -> Change(op, c, p, InsAll(s, s.m, op.l, 1, 1))
    [] op.f = "eraseall" -> Change(op, c, p, DelAll(s.m, op.l, 1, 1))
    [] op.f = "clear" -> Change(op, c, p, <<0, <<>>>>)
    [] op.f \in {"read", "uread"} -> Look(op, c, p, Got(op, s.m))
    [] op.f = "size" -> Look(op, c, p, op.r = Cardinality(DOMAIN s.m))
    [] op.f \in {"iter", "uiter"} -> Look(op, c, p, Visited(op, s.m))
    [] op.f = "lockr" -> {Fin(c, p, [s EXCEPT !.rd = @ \cup {p}])}
    [] op.f = "unlockr" -> {Fin(c, p, [s EXCEPT !.rd = @ \ {p}])}
    [] op.f = "lockw" -> {Fin(c, p, [s EXCEPT !.wr = @ \cup {p}])}
    [] op.f = "unlockw" -> {Fin(c, p, [s EXCEPT !.wr = @ \ {p}])}
    [] op.f = "capacity" -> If(op.pend \/ op.r = op.g[1], {Fin(c, p, s)})
    [] op.f = "connected" -> If(op.pend \/ op.r = (IF s.loc[op.ob] THEN 1 ELSE 0), {Fin(c, p, s)})
    [] op.f = "disconnect" -> {Fin(c, p, [s EXCEPT !.loc[op.ob] = FALSE])}
    [] op.f = "attached" -> If(op.pend \/ op.r = Cardinality({o \in {op.own[i] : i \in 1..Len(op.own)} : s.loc[o]}), {Fin(c, p, s)})
    [] op.f = "connect" ->
         LET ok == op.key = 0 /\ ~s.loc[op.ob] /\ s.geo \in {<<>>, op.geo} IN
         If(op.pend \/ op.r = (IF ok THEN 1 ELSE 0), IF ok THEN {Fin(c, p, [s EXCEPT !.geo = op.geo, !.loc[op.ob] = TRUE])}
                                                           ELSE {Fin(c, p, s), Fin(c, p, [s EXCEPT !.loc[op.ob] = FALSE])})   \* whether a second connect ends the first is open
    [] OTHER -> {}
MMoves(op, c, p) ==
  IF c.ph[p] # 0 THEN {}
  ELSE IF Threw(op) THEN If(op.in = 1, {Fin(c, p, c.st)})
  ELSE If(Enters(op, c.st), Effect(op, c, p))
       \cup If(op.f = "connect" /\ ~op.pend /\ op.r = 0 /\ op.in = 1, {Fin(c, p, c.st)})
(* the kernel releases what a dead process held; entries it may have been changing are unknown *)
Dead(op, c, p) ==
  LET s == [c.st EXCEPT !.rd = @ \ {p}, !.wr = @ \ {p}]
      torn == p \in c.st.wr \/ (op.f \in {"insert", "erase", "insertall", "eraseall", "clear"} /\ c.ph[p] = 1)
  IN {[st |-> IF torn THEN [s EXCEPT !.bad = TRUE] ELSE s, ph |-> [c.ph EXCEPT ![p] = 0]]}
=============================================================================
