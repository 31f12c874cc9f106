------------------------------- MODULE Logger -------------------------------
(* The log of a process: where what is written to stderr goes, which lines are *)
(* written at all, and what a line looks like.                                 *)
EXTENDS Fs, Civil
LevelNames == <<"access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug">>
LevelBytes == << <<97,99,99,101,115,115>>, <<101,109,101,114,103>>, <<97,108,101,114,116>>, <<99,114,105,116>>, <<101,114,114,111,114>>,
                 <<119,97,114,110>>, <<110,111,116,105,99,101>>, <<105,110,102,111>>, <<100,101,98,117,103>> >>
Info == 7
(* the level a name stands for: exact names in any case; a text that starts like none of them is unknown *)
LevelIs(s, r) ==
  IF \E i \in 1..9 : LevelBytes[i] = LowSeq(s) THEN r \in 0..8 /\ LevelBytes[r + 1] = LowSeq(s)
  ELSE IF s = <<>> \/ ~\E i \in 1..9 : LevelBytes[i][1] = Low(s[1]) THEN r = Info ELSE r \in 0..8
VARIABLES fs, cur,      \* the tree; the file stderr refers to
          level, names  \* threshold; name of each thread, <<>> = none set (<<s>> = s set)
lvars == <<fs, cur, level, names>>
(* a line: time, level, thread name or id, message *)
Two(s, i) == (s[i] - 48) * 10 + (s[i + 1] - 48)
TimeIs(s, day, sec, ms, tz) ==
  LET t == sec + tz * 60
      d == IF t < 0 THEN day - 1 ELSE IF t >= 86400 THEN day + 1 ELSE day
      u == IF t < 0 THEN t + 86400 ELSE IF t >= 86400 THEN t - 86400 ELSE t IN
  /\ Len(s) = 23 /\ \A i \in 1..23 : CASE i \in {5, 8} -> s[i] = 45 [] i = 11 -> s[i] = 32 [] i \in {14, 17} -> s[i] = 58 [] i = 20 -> s[i] = 46 [] OTHER -> IsDigit(s[i])
  /\ Two(s, 6) \in 1..12 /\ Two(s, 9) >= 1 /\ Two(s, 9) <= MonthLen(Two(s, 1) * 100 + Two(s, 3), Two(s, 6))
  /\ DayNumber(Two(s, 1) * 100 + Two(s, 3), Two(s, 6), Two(s, 9)) = d
  /\ Two(s, 12) * 3600 + Two(s, 15) * 60 + Two(s, 18) = u /\ Two(s, 15) < 60 /\ Two(s, 18) < 60
  /\ (s[21] - 48) * 100 + Two(s, 22) = ms
Rest(lev, who, msg) == <<32>> \o LevelBytes[lev + 1] \o <<32>> \o who \o <<32>> \o msg \o <<10>>
LineIs(s, e, who, msg) == Len(s) > 23 /\ TimeIs(SubSeq(s, 1, 23), e.day, e.sec, e.ms, e.tz) /\ SubSeq(s, 24, Len(s)) = Rest(e.lv, who, msg)
(* what happened to the files: d = list of [p, s] appended to, nd / nf = new directories and files, hurt = anything else changed *)
SetOf(l) == {l[i] : i \in 1..Len(l)}
Same(e, n) == e.hurt = 0 /\ {a \in DOMAIN n : n[a].k = "dir"} = {a \in DOMAIN fs : fs[a].k = "dir"} \cup SetOf(e.nd)
                         /\ {a \in DOMAIN n : n[a].k = "file"} = {a \in DOMAIN fs : fs[a].k = "file"} \cup SetOf(e.nf)
Silent(e) == e.d = <<>>
NoNew(e) == e.nd = <<>> /\ e.nf = <<>> /\ e.hurt = 0
Wrote(e) == Len(e.d) = 1 /\ e.d[1].p = cur
Log(e, ids) ==
  LET who == IF names[e.th] = <<>> THEN ids[e.th] ELSE names[e.th][1]
      msg == IF e.code < 0 THEN e.msg ELSE e.msg \o <<32, 40>> \o DecNat(e.code) \o <<58, 32>> \o e.text \o <<41, 10>> IN
  /\ NoNew(e) /\ e.level = level /\ UNCHANGED lvars
  /\ IF e.lv <= level THEN Wrote(e) /\ LineIs(e.d[1].s, e, who, msg) ELSE Silent(e)
Raw(e) == NoNew(e) /\ e.level = level /\ UNCHANGED lvars /\ IF e.msg = <<>> THEN Silent(e) ELSE Wrote(e) /\ e.d[1].s = e.msg
(* new log; lv = the level asked for *)
Create(e, lv) ==
  LET m == MkPath(fs, e.path)
      o == IF m.ok THEN OpenFile(m.fs, e.path, TRUE) ELSE [at |-> Nowhere, fs |-> m.fs] IN
  /\ Silent(e) /\ e.same = 1 /\ e.hurt = 0 /\ UNCHANGED names
  /\ \/ /\ o.at # Nowhere /\ e.r >= 0
        /\ fs' = o.fs /\ Same(e, o.fs) /\ cur' = o.at /\ level' = lv
     \/ /\ o.at = Nowhere /\ e.r = -1
        /\ fs' = o.fs /\ Same(e, o.fs) /\ UNCHANGED <<cur, level>>
     \/ /\ e.err = 1 /\ e.r = -1      \* something failed on the way
        /\ SetOf(e.nd) \cup SetOf(e.nf) \subseteq DOMAIN o.fs \ DOMAIN fs
        /\ fs' = [a \in DOMAIN fs \cup SetOf(e.nd) \cup SetOf(e.nf) |-> o.fs[a]] /\ UNCHANGED <<cur, level>>
  /\ e.level = level'
SetLevel(e) == level' = e.lv /\ e.level = e.lv /\ Silent(e) /\ NoNew(e) /\ UNCHANGED <<fs, cur, names>>
SetName(e) == names' = [names EXCEPT ![e.th] = e.name] /\ e.r = 0 /\ Silent(e) /\ NoNew(e) /\ UNCHANGED <<fs, cur, level>>
GetName(e) == e.name = names[e.th] /\ Silent(e) /\ NoNew(e) /\ UNCHANGED lvars
Levels(e) == LevelIs(e.msg, e.r) /\ Silent(e) /\ NoNew(e) /\ UNCHANGED lvars
(* somebody renames a file away: the log goes on in it *)
Rename(e) == /\ fs' = [a \in (DOMAIN fs \ {e.from}) \cup {e.to} |-> IF a = e.to THEN File ELSE fs[a]]
             /\ cur' = (IF cur = e.from THEN e.to ELSE cur) /\ e.hurt = 0 /\ UNCHANGED <<level, names>>
LogEvent(e, ids) ==
  CASE e.f = "log" -> Log(e, ids) [] e.f = "raw" -> Raw(e) [] e.f = "create" -> Create(e, e.lv) [] e.f = "rotate" -> Create(e, level)
    [] e.f = "fromstr" -> Create(e, e.lv)
    [] e.f = "setlevel" -> SetLevel(e) [] e.f = "setname" -> SetName(e) [] e.f = "getname" -> GetName(e) [] e.f = "levels" -> Levels(e) [] e.f = "rename" -> Rename(e)
=============================================================================
