------------------------------- MODULE Daemon -------------------------------
(* Loading and stopping: which process goes on, what it has open, who is named *)
(* in the pid file.                                                            *)
EXTENDS Fs
VARIABLES fs, cont,       \* tree and contents of its files
          who,            \* the process that goes on: [pid, sid]
          past,           \* the processes that ended on the way, by pid
          tab, caught,    \* its descriptors; signals it handles
          um              \* permissions it withholds from what it makes
dvars == <<fs, cont, who, past, tab, caught, um>>
SetOf(l) == {l[i] : i \in 1..Len(l)}
Handled == {1, 2, 3, 5, 10, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31}
DevNull == <<<<>>, <<100, 101, 118>>, <<110, 117, 108, 108>>>>
Tab(e) == LET S == SetOf(e.fds) IN [n \in {x.n : x \in S} |-> LET x == CHOOSE y \in S : y.n = n IN [at |-> x.at, off |-> x.off, mode |-> x.mode]]
SeenTree(e) == [a \in (DOMAIN fs \ SetOf(e.gone)) \cup SetOf(e.nd) \cup SetOf(e.nf) |-> IF a \in SetOf(e.nd) THEN Dir ELSE IF a \in SetOf(e.nf) THEN File ELSE fs[a]]
SeenCont(e) == LET S == SetOf(e.ch) IN [a \in (DOMAIN cont \ SetOf(e.gone)) \cup {x.p : x \in S} |-> IF \E x \in S : x.p = a THEN (CHOOSE x \in S : x.p = a).s ELSE cont[a]]
Sees(e) == e.hurt = 0 /\ fs' = SeenTree(e) /\ cont' = SeenCont(e) /\ tab' = Tab(e) /\ caught' = SetOf(e.caught) /\ who' = [pid |-> e.pid, sid |-> e.sid] /\ um' = SetOf(e.um) /\ MadeRight(e.nm, um')
(* in a new process that leads a session, with nothing on its input and output *)
Detached == /\ who'.pid \notin {who.pid} \cup past /\ who'.sid = who'.pid /\ past' = past \cup {who.pid} /\ um' = {}
            /\ {0, 1} \subseteq DOMAIN tab' /\ tab'[0].at = DevNull /\ tab'[0].mode # 1 /\ tab'[1].at = DevNull /\ tab'[1].mode # 0
            /\ DOMAIN tab' = DOMAIN tab \cup {0, 1} /\ \A n \in DOMAIN tab \ {0, 1} : tab'[n] = tab[n]
Stayed == who' = who /\ past' = past /\ um' = um
Same == Stayed /\ tab' = tab
(* the pid file after a claim by the process that goes on *)
Free(path) == LET o == OpenFile(fs, path, TRUE) IN o.at # Nowhere /\ (Has(fs, o.at) => cont[o.at] = <<>>)
Line(pid) == Append(pid, 10)
Claimed(e) == LET o == OpenFile(fs, e.path[1], TRUE) IN fs' = o.fs /\ cont' = [a \in DOMAIN cont \cup {o.at} |-> IF a = o.at THEN Line(e.digits) ELSE cont[a]]
DoLoad(e) ==
  LET wants == e.path # <<>>
      ok == wants => Free(e.path[1]) IN
  \/ /\ ok /\ e.r = 0 /\ caught' = Handled
     /\ (IF e.daemon = 1 THEN Detached ELSE Same)
     /\ (IF wants THEN Claimed(e) ELSE UNCHANGED <<fs, cont>>)
  \/ /\ ~ok /\ e.r = -1 /\ UNCHANGED <<fs, cont>> /\ (e.err = 1 \/ (IF e.daemon = 1 THEN Detached \/ Same ELSE Same))
     /\ (e.err = 1 => past' = past \cup ({who.pid} \ {who'.pid}))
  \/ /\ e.err = 1 /\ e.r = -1 /\ past' = past \cup ({who.pid} \ {who'.pid}) /\ (e.daemon = 0 => Stayed)
     /\ \/ UNCHANGED <<fs, cont>>
        \/ ok /\ wants /\ LET o == OpenFile(fs, e.path[1], TRUE) IN fs' = o.fs /\ cont' = [a \in DOMAIN cont \cup {o.at} |-> IF a = o.at THEN <<>> ELSE cont[a]]
(* the very name is removed, whatever it stands for *)
DoStop(e) ==
  /\ Same /\ UNCHANGED caught
  /\ IF e.path = <<>> THEN e.r = 0 /\ UNCHANGED <<fs, cont>>
     ELSE LET n == Names(e.path[1])  dir == IF e.path[1] = <<>> THEN Nowhere ELSE Find(fs, Front1(n))  at == Append(dir, Last1(n)) IN
          IF dir # Nowhere /\ Has(fs, at) /\ fs[at].k # "dir"
          THEN e.r = 0 /\ fs' = [a \in DOMAIN fs \ {at} |-> fs[a]] /\ cont' = [a \in DOMAIN cont \ {at} |-> cont[a]]
          ELSE e.r = -1 /\ UNCHANGED <<fs, cont>>
DoOther(e) == Same /\ UNCHANGED caught          \* somebody else changes the tree
DEvent(e) == CASE e.f = "load" -> DoLoad(e) [] e.f = "stop" -> DoStop(e) [] e.f = "other" -> DoOther(e)
(* how the processes ended: those left behind successfully, nobody else was made *)
Ended(r) == /\ SetOf(r.made) = past \cup {who.pid}
            /\ \A i \in 1..Len(r.exits) : r.exits[i].code = (IF r.exits[i].pid = who.pid THEN 42 ELSE 0)
=============================================================================
