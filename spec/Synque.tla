-------------------------------- MODULE Synque --------------------------------
(* C03 C04: the thread queue.  An operation is a record [f, ...]; a get moves  *)
(* through phases 0 called, 2 waiting, 3 released by an add, 5 by a signal,   *)
(* 1 finished; an add 0, 4 added, 1.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fin(c, p, s) == [st |-> s, ph |-> [c.ph EXCEPT ![p] = 1]]
MinI(a, b) == IF a < b THEN a ELSE b
Head1(op, q) == IF op.f = "get" THEN 1 ELSE IF op.max > 0 THEN MinI(op.max, Len(q)) ELSE Len(q)
(* ---- C03: what is delivered.  State: the elements in order. ---- *)
Fifo(op, c, p) ==
  LET q == c.st IN
  CASE op.f = "add" -> {Fin(c, p, Append(q, op.v))}
    [] op.f = "signal" -> {Fin(c, p, q)}
    [] op.f \in {"get", "batch"} ->
         IF op.pend THEN {c}
         ELSE IF op.r # 0 THEN (IF op.o = <<>> THEN {Fin(c, p, q)} ELSE {})
         ELSE IF q = <<>> THEN {}
         ELSE LET n == Head1(op, q) IN IF op.o = SubSeq(q, 1, n) THEN {Fin(c, p, SubSeq(q, n + 1, Len(q)))} ELSE {}
    [] op.f = "size" -> IF op.pend \/ op.r = Len(q) THEN {Fin(c, p, q)} ELSE {}
(* ---- C04: who waits.  State: the number of elements. ---- *)
Waiting(c) == {p \in DOMAIN c.ph : c.ph[p] = 2}
(* adding and signalling release a waiting consumer if there is one *)
Released(c, to) == IF Waiting(c) = {} THEN {c.ph}
               ELSE {[p \in DOMAIN c.ph |-> IF p \in S THEN to ELSE c.ph[p]] : S \in (SUBSET Waiting(c)) \ {{}}}
Take(op, c, p) == IF op.pend THEN {}
                  ELSE IF c.st > 0 THEN (IF op.r = 0 /\ Len(op.o) >= 1 /\ Len(op.o) <= c.st THEN {Fin(c, p, c.st - Len(op.o))} ELSE {})
                  ELSE IF op.r = -1 /\ op.o = <<>> THEN {Fin(c, p, 0)} ELSE {}
Wake(op, c, p) ==
  CASE op.f = "add" -> IF c.ph[p] = 0 THEN {[st |-> c.st + 1, ph |-> [c.ph EXCEPT ![p] = 4]]}     \* the element first, the wake-up second
                        ELSE {[c EXCEPT !.ph = [h EXCEPT ![p] = 1]] : h \in Released(c, 3)}
    [] op.f = "signal" -> {[st |-> c.st, ph |-> [h EXCEPT ![p] = 1]] : h \in Released(c, 5)}
    [] op.f = "size" -> {Fin(c, p, c.st)}
    [] op.f \in {"get", "batch"} ->
         IF c.ph[p] = 0 /\ c.st = 0 /\ op.w # 0 THEN {[c EXCEPT !.ph[p] = 2]}
         ELSE IF c.ph[p] \in {0, 3, 5} THEN Take(op, c, p)
              \cup (IF c.ph[p] = 3 /\ c.st = 0 THEN {[c EXCEPT !.ph[p] = 2]} ELSE {})     \* somebody else was faster: fail, or wait on
         ELSE {}
=============================================================================
