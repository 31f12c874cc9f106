------------------------------- MODULE ShmQueue -------------------------------
(* C05-C08: the queue of boxes shared by processes.                            *)
(* State: geo   <<>> or <<box size, boxes>> once created                       *)
(*        q     the undelivered boxes, oldest first; a box is a sequence of    *)
(*              <<value, size>>                                                *)
(*        cnt   the published number of boxes                                  *)
(*        regs  twelve registers                                               *)
(*        loc   per object: attached?, content of its own box, where it stands in  *)
(*              it (bytes before, next object)  *)
(* Phases of an operation: 0 called, 2 box placed, 3 box discarded,            *)
(* 4 delivery reserved, 5 box counted, 1 finished.  A process may die in any.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bytes(b) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE b[i][2] + S(i - 1) IN S(Len(b))
Fresh == [on |-> FALSE, bs |-> 0, box |-> <<>>, fill |-> 0, next |-> 1]
Empty(nob) == [geo |-> <<>>, q |-> <<>>, cnt |-> 0, regs |-> [i \in 0..11 |-> "0"], loc |-> [o \in 1..nob |-> Fresh]]
To(c, p, s, n) == [st |-> s, ph |-> [c.ph EXCEPT ![p] = n]]
Fin(c, p, s) == To(c, p, s, 1)
If(b, S) == IF b THEN S ELSE {}
Loc(s, o, l) == [s EXCEPT !.loc[o] = l]
Cleared(l) == [l EXCEPT !.box = <<>>, !.fill = 0, !.next = 1]
Fits(l, n) == l.fill + n <= l.bs
(* An object put goes where the object's own box stands: behind what it has put, or, in a box it has read, *)
(* over the next object to read (histories that write into a box being read keep to objects of one size).  *)
Added(l, e) == [l EXCEPT !.box = IF l.next <= Len(@) THEN [@ EXCEPT ![l.next] = e] ELSE Append(@, e), !.fill = @ + e[2], !.next = @ + 1]
(* the writing half: place the box or find the ring full, then publish the count *)
Flush(op, c, p, done(_)) ==
  LET s == c.st l == s.loc[op.ob] IN
  CASE c.ph[p] = 0 -> IF ~l.on THEN {To(c, p, Loc(s, op.ob, Cleared(l)), 3)}
                      ELSE IF Len(s.q) < s.geo[2] - 1 THEN {To(c, p, Loc([s EXCEPT !.q = Append(@, l.box)], op.ob, Cleared(l)), 2)}
                      ELSE {To(c, p, Loc(s, op.ob, Cleared(l)), 3)}
    [] c.ph[p] = 2 -> {To(c, p, [s EXCEPT !.cnt = @ + 1], 5)}
    [] c.ph[p] \in {3, 5} -> done(s)
    [] OTHER -> {}
Put(op, c, p) ==
  LET s == c.st l == s.loc[op.ob]
      last(t) == IF Fits(t.loc[op.ob], op.e[2]) THEN If(op.pend \/ op.r = 1, {Fin(c, p, Loc(t, op.ob, Added(t.loc[op.ob], op.e)))})
                 ELSE If(op.pend \/ op.r = 0, {Fin(c, p, t)})
  IN IF c.ph[p] = 0 /\ Fits(l, op.e[2]) THEN last(s) ELSE Flush(op, c, p, last)
(* the reading half: reserve a box by the count, then take the oldest one *)
Unflush(op, c, p) ==
  LET s == c.st l == s.loc[op.ob]
      b == Head(s.q)
      given == [l EXCEPT !.box = b, !.fill = IF op.f = "drain" THEN Bytes(b) ELSE 0, !.next = IF op.f = "drain" THEN Len(b) + 1 ELSE 1]
  IN CASE c.ph[p] = 0 ->
            (IF ~l.on THEN If(op.pend \/ op.r = 0, {Fin(c, p, s)})
             ELSE If(s.cnt > 0, {To(c, p, [s EXCEPT !.cnt = @ - 1], 4)})
                  \cup If(~op.pend /\ op.r = 0 /\ (op.in = 1 \/ (s.cnt = 0 /\ op.el = op.w)), {Fin(c, p, s)}))
       [] c.ph[p] = 4 -> If(s.q # <<>> /\ (op.pend \/ (op.r = 1 /\ (op.f = "drain" => op.o = b))),
                            {Fin(c, p, Loc([s EXCEPT !.q = Tail(@)], op.ob, given))})
       [] OTHER -> {}
Get(op, c, p) ==
  LET s == c.st l == s.loc[op.ob] IN
  IF op.pend THEN {c}
  ELSE IF l.next <= Len(l.box) THEN If(op.o = <<l.box[l.next]>>, {Fin(c, p, Loc(s, op.ob, [l EXCEPT !.next = @ + 1, !.fill = @ + l.box[l.next][2]]))})
  ELSE If(op.o = <<>>, {Fin(c, p, s)})
Connect(op, c, p) ==
  LET s == c.st l == s.loc[op.ob]
      g == <<op.bs, op.n>>
      ok == op.key = 0 /\ ~l.on /\ s.geo \in {<<>>, g}
  IN If(op.pend \/ op.r = (IF ok THEN 1 ELSE 0),
        {Fin(c, p, IF ok THEN Loc([s EXCEPT !.geo = g], op.ob, [Fresh EXCEPT !.on = TRUE, !.bs = op.bs]) ELSE s)})
QMoves(op, c, p) ==
  LET s == c.st IN
  CASE c.ph[p] = 1 -> {}
    [] op.f = "connect" -> Connect(op, c, p)
    [] op.f = "disconnect" -> {Fin(c, p, Loc(s, op.ob, Fresh))}
    [] op.f = "put" -> Put(op, c, p)
    [] op.f = "flush" -> Flush(op, c, p, LAMBDA t : {Fin(c, p, t)})
    [] op.f \in {"unflush", "drain"} -> Unflush(op, c, p)
    [] op.f = "get" -> Get(op, c, p)
    [] op.f = "boxes" -> If(op.pend \/ op.r = s.cnt, {Fin(c, p, s)})
    [] op.f = "setreg" -> {Fin(c, p, IF op.i \in 0..11 THEN [s EXCEPT !.regs[op.i] = op.v] ELSE s)}
    [] op.f = "getreg" -> If(op.pend \/ op.r = (IF op.i \in 0..11 THEN s.regs[op.i] ELSE "0"), {Fin(c, p, s)})
    [] op.f = "registers" -> If(op.pend \/ op.r = 12, {Fin(c, p, s)})
    [] op.f = "attached" -> If(op.r = Cardinality({o \in {op.own[i] : i \in 1..Len(op.own)} : s.loc[o].on}), {Fin(c, p, s)})
    [] OTHER -> {}
=============================================================================
