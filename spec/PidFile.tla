------------------------------ MODULE PidFile ------------------------------
(* A pid file as its users see it.  The file is absent, empty (both: free) or  *)
(* has text.  A claim gets hold of the file or, somebody else holding it,      *)
(* fails; the holder of a free file writes its text and has then succeeded,    *)
(* the holder of an owned one lets go and fails.  A death can leave off        *)
(* anywhere; an error undoes what was written.                                 *)
(* A configuration is [st, ph]: ph[p] = 0 before, 2 holding, 4 writing, 1 done *)
EXTENDS Integers, Sequences, FiniteSets
Absent == <<-1>>
Free(f) == f = Absent \/ f = <<>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Text(pid) == Append(Dec(pid), 10)
PStart(file) == [file |-> file, holder |-> 0]
Ph(c, p, i) == [c EXCEPT !.ph[p] = i]
May(op, r) == op.pend \/ op.r = r
Err(op) == op.pend \/ op.err
ClaimMoves(op, c, p) ==
  LET f == c.st.file
      done == Ph(c, p, 1)
      drop == [done EXCEPT !.st.holder = 0]
      cut(k) == [Ph(c, p, 4) EXCEPT !.st.file = SubSeq(Text(op.pid), 1, k)] IN
  CASE c.ph[p] = 0 ->
         (IF f = Absent THEN {[c EXCEPT !.st.file = <<>>]} ELSE {})
         \cup (IF c.st.holder = 0 THEN {[Ph(c, p, 2) EXCEPT !.st.holder = p]} ELSE {})
         \cup (IF May(op, -1) /\ (c.st.holder # 0 \/ ~Free(f) \/ Err(op)) THEN {done} ELSE {})
    [] c.ph[p] = 2 ->
         (IF May(op, -1) /\ (~Free(f) \/ Err(op)) THEN {drop} ELSE {})
         \cup (IF Free(f) THEN {cut(0)} ELSE {})
    [] c.ph[p] = 4 ->
         {cut(k) : k \in (Len(f) + 1)..Len(Text(op.pid))}
         \cup (IF f = Text(op.pid) /\ May(op, 0) THEN {drop} ELSE {})
         \cup (IF Err(op) /\ May(op, -1) THEN {[drop EXCEPT !.st.file = <<>>]} ELSE {})
    [] OTHER -> {}
StopMoves(op, c, p) ==
  IF c.ph[p] # 0 THEN {}
  ELSE (IF c.st.file # Absent /\ May(op, 0) THEN {[Ph(c, p, 1) EXCEPT !.st.file = Absent]} ELSE {})
       \cup (IF (c.st.file = Absent \/ Err(op)) /\ May(op, -1) THEN {Ph(c, p, 1)} ELSE {})
PMoves(op, c, p) ==
  CASE op.f = "claim" -> ClaimMoves(op, c, p)
    [] op.f = "stop" -> StopMoves(op, c, p)
    [] op.f = "look" -> IF c.ph[p] = 0 /\ c.st.file = op.s THEN {Ph(c, p, 1)} ELSE {}
PDeath(c, p) == {[Ph(c, p, 0) EXCEPT !.st.holder = IF c.st.holder = p THEN 0 ELSE c.st.holder]}
=============================================================================
