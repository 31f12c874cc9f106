----------------------------- MODULE LogThreads -----------------------------
(* Lines logged by threads while others rotate: each line of a logged level is *)
(* found exactly once, whole, in a file that was the log at some moment of the *)
(* call, and lines follow one another in each file as the calls did.           *)
EXTENDS Logger, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE t
R == Trace[t]
Shown == {i \in 1..Len(R.logs) : R.logs[i].lv <= R.level}
OkRots == {i \in 1..Len(R.rots) : R.rots[i].r = 0}
Before == <<98, 101, 102, 111, 114, 101>>
(* the lines of a file; the first one of the original file was there before *)
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) == IF i > Len(s) THEN <<>> ELSE LET j == FirstFrom(s, i, LAMBDA c : c = 10) IN
                   IF j = 0 THEN << <<0>> >> ELSE <<SubSeq(s, i, j - 1)>> \o LinesFrom(s, j + 1)
Time == [lv |-> 0, day |-> R.day, sec |-> R.sec, ms |-> R.ms, tz |-> 0]
Body(e) == SubSeq(Rest(e.lv, e.who, e.msg), 1, Len(Rest(e.lv, e.who, e.msg)) - 1)
OK ==
  LET raw == TLCEval([f \in 1..Len(R.files) |-> LinesFrom(R.files[f].s, 1)])
      lines == TLCEval([f \in 1..Len(R.files) |-> IF f = 1 THEN Tail(raw[1]) ELSE raw[f]])
      tails == TLCEval([f \in 1..Len(lines) |-> [n \in 1..Len(lines[f]) |-> SubSeq(lines[f][n], 24, Len(lines[f][n]))]])
      bodies == TLCEval([i \in Shown |-> Body(R.logs[i])])
      \* <<file, line number>> of each logged line
      at == TLCEval([i \in Shown |-> {p \in UNION {{<<f, n>> : n \in 1..Len(lines[f])} : f \in 1..Len(lines)} : tails[p[1]][p[2]] = bodies[i]}]) IN
  /\ R.lv1 = R.level /\ R.files[1].ok = 1 /\ raw[1] # <<>> /\ raw[1][1] = Before
  /\ \A i \in 1..Len(R.logs) : R.logs[i].who = R.logs[i].name
  /\ \A f \in 1..Len(lines) : \A n \in 1..Len(lines[f]) : Len(lines[f][n]) > 23
  /\ \A i \in Shown : Cardinality(at[i]) = 1
  /\ Cardinality(UNION {at[i] : i \in Shown}) = FoldLeft(LAMBDA a, f : a + Len(lines[f]), 0, [f \in 1..Len(lines) |-> f])
  /\ LET pos == TLCEval([i \in Shown |-> CHOOSE p \in at[i] : TRUE])
         overtaken(o, l) == \E q \in OkRots : R.rots[q].i > o /\ R.rots[q].o < l.i IN
     /\ \A i \in Shown : TimeIs(SubSeq(lines[pos[i][1]][pos[i][2]], 1, 23), R.logs[i].day, R.logs[i].sec, R.ms, 0)
     /\ \A i \in Shown : LET l == R.logs[i]  f == pos[i][1] IN
          \/ f = 1 /\ ~overtaken(0, l)
          \/ \E q \in OkRots : R.rots[q].k = f /\ R.rots[q].i < l.o /\ ~overtaken(R.rots[q].o, l)
     /\ \A i, j \in Shown : R.logs[i].o < R.logs[j].i /\ pos[i][1] = pos[j][1] => pos[i][2] < pos[j][2]
  \* a rotation fails exactly where there can be no file
  /\ \A q \in 1..Len(R.rots) : (R.rots[q].r = 0) = (R.files[R.rots[q].k].ok = 1)
Init == t \in {1 + 5 * j : j \in 0..((Len(Trace) - 1) \div 5)} /\ fs = 0 /\ cur = 0 /\ level = 0 /\ names = 0
Next == UNCHANGED lvars /\ t' = (IF t % 5 # 0 /\ t < Len(Trace) THEN t + 1 ELSE t)
Spec == Init /\ [][Next]_<<lvars, t>>
=============================================================================
