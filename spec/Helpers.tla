------------------------------ MODULE Helpers ------------------------------
(* Path, descriptor and mapping helpers over a tree, the contents of its       *)
(* files, a descriptor table and memory mappings.                              *)
EXTENDS Fs
VARIABLES fs, cont,     \* tree; contents of each file
          tab,          \* descriptor -> [at, off, mode]
          maps          \* mapping number -> [at, size, kind, mine, clean]
hvars == <<fs, cont, tab, maps>>
SetOf(l) == {l[i] : i \in 1..Len(l)}
Only(f, S) == [x \in S |-> f[x]]
(* what the driver saw: new directories and files, changed contents, everything else, descriptors *)
Tab(e) == LET S == SetOf(e.fds) IN [n \in {x.n : x \in S} |-> LET x == CHOOSE y \in S : y.n = n IN [at |-> x.at, off |-> x.off, mode |-> x.mode]]
SeenTree(e) == [a \in DOMAIN fs \cup SetOf(e.nd) \cup SetOf(e.nf) |-> IF a \in SetOf(e.nd) THEN Dir ELSE IF a \in SetOf(e.nf) THEN File ELSE fs[a]]
SeenCont(e) == LET S == SetOf(e.ch) IN [a \in DOMAIN cont \cup {x.p : x \in S} |-> IF \E x \in S : x.p = a THEN (CHOOSE x \in S : x.p = a).s ELSE cont[a]]
Sees(e) == e.hurt = 0 /\ fs' = SeenTree(e) /\ cont' = SeenCont(e) /\ tab' = Tab(e) /\ e.um = e.want /\ MadeRight(e.nm, SetOf(e.um))
Keep(e) == UNCHANGED hvars
(* somebody who maps a file privately need not see what happens to it later *)
Touch(m, changed) == [i \in DOMAIN m |-> IF m[i].at \in changed THEN [m[i] EXCEPT !.clean = FALSE] ELSE m[i]]
DoMkPath(e) ==
  LET m == MkPath(fs, e.path) IN
  /\ e.same = 1 /\ UNCHANGED <<cont, tab, maps>>
  /\ \/ e.r = (IF m.ok THEN 0 ELSE -1) /\ fs' = m.fs
     \/ e.err = 1 /\ e.r = -1 /\ fs' \in {Only(m.fs, DOMAIN fs \cup S) : S \in SUBSET (DOMAIN m.fs \ DOMAIN fs)}
DoFdMove(e) ==
  /\ UNCHANGED <<fs, cont, maps>>
  /\ IF e.to < 0 \/ e.to = e.fd THEN e.r = e.fd /\ UNCHANGED tab
     ELSE \/ e.fd \in DOMAIN tab /\ e.to < e.limit /\ e.r = e.to
             /\ tab' = [x \in (DOMAIN tab \ {e.fd}) \cup {e.to} |-> IF x = e.to THEN tab[e.fd] ELSE tab[x]]
          \/ (e.fd \notin DOMAIN tab \/ e.to >= e.limit \/ e.err = 1) /\ e.r = -1 /\ UNCHANGED tab
(* open a file, then have it on the chosen descriptor *)
Opened(e) ==
  LET w == Find(fs, Names(e.path))
      isdir == e.path # <<>> /\ w # Nowhere /\ IsDir(fs, w)
      o == OpenFile(fs, e.path, e.creat = 1)
      there == LET dir == Find(fs, Front1(Names(e.path))) IN dir # Nowhere /\ Has(fs, Append(dir, Last1(Names(e.path)))) IN
  IF e.path = <<>> THEN [at |-> Nowhere, fs |-> fs]
  ELSE IF isdir THEN IF e.creat = 1 \/ e.write = 1 \/ e.trunc = 1 THEN [at |-> Nowhere, fs |-> fs] ELSE [at |-> w, fs |-> fs]
  ELSE IF e.creat = 1 /\ e.excl = 1 /\ there THEN [at |-> Nowhere, fs |-> fs]       \* even if it is a link to nothing
  ELSE o
DoFdOpen(e) ==
  LET o == Opened(e)
      made == o.at # Nowhere /\ ~Has(fs, o.at)
      c2 == IF o.at = Nowhere \/ IsDir(fs, o.at) THEN cont
            ELSE [a \in DOMAIN cont \cup {o.at} |-> IF a = o.at /\ (made \/ (e.trunc = 1 /\ e.write = 1)) THEN <<>> ELSE cont[a]] IN
  /\ maps' = Touch(maps, {a \in DOMAIN cont : c2[a] # cont[a]})
  /\ \/ /\ o.at # Nowhere /\ e.r >= 0 /\ e.fd < e.limit
        /\ (IF e.fd >= 0 THEN e.r = e.fd ELSE e.r \notin DOMAIN tab)
        /\ fs' = o.fs /\ cont' = c2
        /\ tab' = [x \in DOMAIN tab \cup {e.r} |-> IF x = e.r THEN [at |-> o.at, off |-> 0, mode |-> e.mode] ELSE tab[x]]
     \/ /\ (o.at = Nowhere \/ e.fd >= e.limit \/ e.err = 1) /\ e.r = -1 /\ UNCHANGED tab
        /\ \/ o.at # Nowhere /\ fs' = o.fs /\ cont' = c2       \* opened, but could not be moved
           \/ (o.at = Nowhere \/ e.err = 1) /\ UNCHANGED <<fs, cont>>
Zeros(n) == [i \in 1..n |-> 0]
Resized(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
DoMap(e) ==
  LET w == IF e.path = <<>> THEN Nowhere ELSE Find(fs, Names(e.path))
      isfile == w # Nowhere /\ fs[w].k = "file"
      n == IF e.size > 0 THEN e.size ELSE Len(cont[w])
      c2 == IF e.size > 0 THEN [cont EXCEPT ![w] = Resized(@, n)] ELSE cont
      add(at, mine) == (e.id :> [at |-> at, size |-> e.got, kind |-> e.kind, mine |-> mine, clean |-> TRUE]) IN
  /\ UNCHANGED <<fs, tab>>
  /\ IF e.anon = 1
     THEN UNCHANGED cont /\ \/ e.r = 0 /\ e.size > 0 /\ e.got = e.size /\ (e.read = 1 => e.bytes = Zeros(e.size)) /\ maps' = add(<<>>, Zeros(e.size)) @@ maps
                            \/ e.r = -1 /\ (e.size = 0 \/ e.err = 1 \/ e.bad = 1) /\ UNCHANGED maps
     ELSE \/ /\ e.r = 0 /\ isfile /\ e.bad = 0
             /\ e.got = n /\ (e.read = 1 => e.bytes = c2[w]) /\ cont' = c2
             /\ maps' = add(w, c2[w]) @@ Touch(maps, IF c2 = cont THEN {} ELSE {w})
          \/ /\ e.r = -1
             /\ \/ ~isfile /\ UNCHANGED <<cont, maps>>
                \/ isfile /\ (e.err = 1 \/ e.bad = 1 \/ (e.size = 0 /\ cont[w] = <<>>)) /\ cont' \in {cont, c2} /\ maps' = Touch(maps, IF cont' = cont THEN {} ELSE {w})
                \/ isfile /\ e.size > 0 /\ e.write = 0 /\ UNCHANGED <<cont, maps>>      \* not to be written, so not to be resized
View(m) == IF m.kind = "shared" /\ m.at # <<>> THEN SubSeq(cont[m.at], 1, m.size) ELSE m.mine
DoView(e) == LET m == maps[e.id] IN Keep(e) /\ (m.clean \/ m.kind = "shared" => e.bytes = View(m))
DoPoke(e) ==
  LET m == maps[e.id] IN
  /\ UNCHANGED <<fs, tab>>
  /\ IF m.kind = "shared" /\ m.at # <<>>
     THEN cont' = [cont EXCEPT ![m.at][e.off + 1] = e.v] /\ maps' = Touch(maps, {m.at})
     ELSE UNCHANGED cont /\ maps' = [maps EXCEPT ![e.id].mine[e.off + 1] = e.v]
DoWrite(e) == UNCHANGED <<fs, tab>> /\ cont' = [cont EXCEPT ![e.p] = e.s] /\ maps' = Touch(maps, {e.p})
DoUnmap(e) == UNCHANGED <<fs, cont, tab>> /\ e.r = 0 /\ maps' = Only(maps, DOMAIN maps \ {e.id})
(* beyond 2 and 4 GiB: sizes as multiples of 2^30 and a rest; the first and the last byte of the file are 77 *)
Same2(h, l, x) == h = x[1] /\ l = x[2]
DoBig(e) ==
  LET zero == <<0, 0>>
      file == <<e.fh, e.fl>>
      asked == <<e.sh, e.sl>>
      len == IF e.anon = 1 \/ asked # zero THEN asked ELSE file
      last == IF e.anon = 0 /\ len = file THEN 77 ELSE 0 IN
  /\ Keep(e) /\ e.r = 0 /\ Same2(e.gh, e.gl, len) /\ Same2(e.ah, e.al, IF e.anon = 1 THEN zero ELSE len)
  /\ e.first = (IF e.anon = 1 THEN 0 ELSE 77) /\ e.last = last
  /\ e.seen = (IF e.write = 0 THEN -1 ELSE IF e.anon = 1 THEN 0 ELSE IF e.shared = 1 THEN 99 ELSE last)
  /\ e.u = 0 /\ e.took >= e.gh /\ e.left = 0
HEvent(e) ==
  CASE e.f = "mkpath" -> DoMkPath(e) [] e.f = "fdmove" -> DoFdMove(e) [] e.f = "fdopen" -> DoFdOpen(e)
    [] e.f = "map" -> DoMap(e) [] e.f = "view" -> DoView(e) [] e.f = "poke" -> DoPoke(e) [] e.f = "write" -> DoWrite(e) [] e.f = "unmap" -> DoUnmap(e)
    [] e.f = "big" -> DoBig(e)
    [] e.f = "have" -> UNCHANGED <<fs, cont, maps>>          \* the driver itself arranges descriptors
=============================================================================
