----------------------------- MODULE PidFileMC -----------------------------
(* The protocol with its separate steps over directory entry, files and locks: *)
(* open/create, lock without waiting, look at the size, write, unlock, close;  *)
(* removal by the owner, or by an operator once the owner is dead.             *)
(* Failing steps and deaths anywhere, a death also in the middle of the write. *)
EXTENDS Integers, FiniteSets
CONSTANTS P, Claims, Deaths, Faults, Inodes
VARIABLES dir,      \* file the name refers to, 0 if none
          text,     \* text[i]: 0 empty, <<p, whole>> written by p
          lock,     \* lock[i]: 0 or holder
          pc, ino, owners, left, deaths, faults, hurt, used
vars == <<dir, text, lock, pc, ino, owners, left, deaths, faults, hurt, used>>
Init == /\ \E d \in {0, 1} : dir = d /\ used = d
        /\ text = [i \in 1..Inodes |-> <<0, FALSE>>] /\ lock = [i \in 1..Inodes |-> 0]
        /\ pc = [p \in P |-> "idle"] /\ ino = [p \in P |-> 0] /\ owners = {}
        /\ left = [p \in P |-> Claims] /\ deaths = Deaths /\ faults = Faults /\ hurt = FALSE
Empty(i) == text[i] = <<0, FALSE>>
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
(* steps of a claim *)
Open(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ p \notin owners
           /\ IF dir = 0 THEN used < Inodes /\ used' = used + 1 /\ dir' = used' ELSE UNCHANGED <<dir, used>>
           /\ ino' = [ino EXCEPT ![p] = dir'] /\ Go(p, "lock") /\ left' = [left EXCEPT ![p] = @ - 1]
           /\ UNCHANGED <<text, lock, owners, deaths, faults, hurt>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF lock[ino[p]] = 0 THEN lock' = [lock EXCEPT ![ino[p]] = p] /\ Go(p, "size")
                                  ELSE lock' = lock /\ Go(p, "fail")
           /\ UNCHANGED <<dir, text, ino, owners, left, deaths, faults, hurt, used>>
Size(p) == /\ pc[p] = "size" /\ Go(p, IF Empty(ino[p]) THEN "write" ELSE "fail")
           /\ UNCHANGED <<dir, text, lock, ino, owners, left, deaths, faults, hurt, used>>
Write(p) == /\ pc[p] = "write" /\ text' = [text EXCEPT ![ino[p]] = <<p, TRUE>>] /\ Go(p, "unlock")
            /\ UNCHANGED <<dir, lock, ino, owners, left, deaths, faults, hurt, used>>
Unlocked(p) == lock' = [i \in 1..Inodes |-> IF lock[i] = p THEN 0 ELSE lock[i]]
Unlock(p) == /\ pc[p] = "unlock" /\ Unlocked(p) /\ Go(p, "close")
             /\ UNCHANGED <<dir, text, ino, owners, left, deaths, faults, hurt, used>>
Close(p) == /\ pc[p] = "close" /\ Go(p, "idle") /\ owners' = owners \cup {p} /\ ino' = [ino EXCEPT ![p] = 0]
            /\ UNCHANGED <<dir, text, lock, left, deaths, faults, hurt, used>>
Fail(p) == /\ pc[p] = "fail" /\ Unlocked(p) /\ Go(p, "idle") /\ ino' = [ino EXCEPT ![p] = 0]
           /\ UNCHANGED <<dir, text, owners, left, deaths, faults, hurt, used>>
Undo(p) == /\ pc[p] = "undo" /\ text' = [text EXCEPT ![ino[p]] = <<0, FALSE>>] /\ Go(p, "fail")
           /\ UNCHANGED <<dir, lock, ino, owners, left, deaths, faults, hurt, used>>
(* a step fails; the write may have begun *)
Fault(p) == /\ faults > 0 /\ faults' = faults - 1 /\ hurt' = TRUE
            /\ CASE pc[p] \in {"lock", "size"} -> Go(p, "fail") /\ UNCHANGED text
                 [] pc[p] = "write" -> Go(p, "undo") /\ text' = [text EXCEPT ![ino[p]] = <<p, FALSE>>]
                 [] pc[p] = "unlock" -> Go(p, "undo") /\ UNCHANGED text
                 [] OTHER -> FALSE
            /\ UNCHANGED <<dir, lock, ino, owners, left, deaths, used>>
Die(p) == /\ deaths > 0 /\ deaths' = deaths - 1 /\ pc[p] # "dead" /\ Go(p, "dead") /\ Unlocked(p) /\ hurt' = TRUE
          /\ IF pc[p] = "write" THEN \E w \in {<<0, FALSE>>, <<p, FALSE>>} : text' = [text EXCEPT ![ino[p]] = w] ELSE UNCHANGED text
          /\ ino' = [ino EXCEPT ![p] = 0] /\ UNCHANGED <<dir, owners, left, faults, used>>
(* removal *)
Stop(p) == /\ pc[p] = "idle" /\ p \in owners /\ dir' = 0 /\ owners' = owners \ {p}
           /\ UNCHANGED <<text, lock, pc, ino, left, deaths, faults, hurt, used>>
Operator == /\ dir # 0 /\ \E p \in P : pc[p] = "dead" /\ text[dir][1] = p
            /\ dir' = 0 /\ owners' = owners \ {p \in P : pc[p] = "dead"}
            /\ UNCHANGED <<text, lock, pc, ino, left, deaths, faults, hurt, used>>
Next == Operator \/ \E p \in P : Open(p) \/ Lock(p) \/ Size(p) \/ Write(p) \/ Unlock(p) \/ Close(p) \/ Fail(p) \/ Undo(p) \/ Fault(p) \/ Die(p) \/ Stop(p)
Spec == Init /\ [][Next]_vars
OneOwner == Cardinality(owners) <= 1
OwnerNamed == \A p \in owners : dir # 0 /\ text[dir] = <<p, TRUE>>
(* with everybody through and nobody hurt the file is somebody's, or has been removed again *)
Through == \A p \in P : pc[p] = "idle" /\ left[p] < Claims
SomebodyWins == Through /\ ~hurt /\ dir # 0 => owners # {}
(* no half text of a living process, no lock without a claim *)
NothingLeft == (\A p \in P : pc[p] \in {"idle", "dead"}) =>
                 /\ \A i \in 1..Inodes : lock[i] = 0
                 /\ \A i \in 1..Inodes : text[i][1] # 0 /\ ~text[i][2] => pc[text[i][1]] = "dead"
                 /\ dir # 0 /\ ~Empty(dir) => text[dir][1] \in owners \/ pc[text[dir][1]] = "dead"
=============================================================================
