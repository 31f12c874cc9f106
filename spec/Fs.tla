--------------------------------- MODULE Fs ---------------------------------
(* A directory tree as path-handling code sees it.  A tree maps the position   *)
(* of every file, directory and symbolic link (its sequence of names from the  *)
(* root, names being byte strings) to what is there.                           *)
EXTENDS Bytes
Dir == [k |-> "dir", to |-> <<>>]
File == [k |-> "file", to |-> <<>>]
Link(to) == [k |-> "link", to |-> to]
Slash == 47
Dot == <<46>>
DotDot == <<46, 46>>
Names(text) == SplitBy(text, LAMBDA c : c = Slash)
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
Has(fs, at) == at \in DOMAIN fs
IsDir(fs, at) == Has(fs, at) /\ fs[at].k = "dir"
NameMax == 255
Nowhere == <<<<0>>>>
(* where a sequence of names leads from a directory, links followed; Nowhere if to nothing *)
RECURSIVE Walk(_, _, _, _)
Walk(fs, cur, names, hops) ==
  IF cur = Nowhere \/ hops = 0 THEN Nowhere
  ELSE IF names = <<>> THEN cur
  ELSE IF ~IsDir(fs, cur) THEN Nowhere
  ELSE LET h == Head(names)  tl == Tail(names)  nx == Append(cur, h) IN
       IF h = <<>> \/ h = Dot THEN Walk(fs, cur, tl, hops)
       ELSE IF h = DotDot THEN Walk(fs, IF cur = <<>> THEN cur ELSE Front1(cur), tl, hops)
       ELSE IF ~Has(fs, nx) THEN Nowhere
       ELSE IF fs[nx].k = "link" THEN Walk(fs, Walk(fs, cur, fs[nx].to, hops - 1), tl, hops - 1)
       ELSE Walk(fs, nx, tl, hops)
Find(fs, names) == Walk(fs, <<>>, names, 40)
(* make one directory if there is none *)
MkDir(fs, names) ==
  LET w == Find(fs, names) IN
  IF w # Nowhere THEN [ok |-> IsDir(fs, w), fs |-> fs]
  ELSE LET dir == Find(fs, Front1(names))  nm == Last1(names) IN
       IF dir # Nowhere /\ IsDir(fs, dir) /\ nm \notin {<<>>, Dot, DotDot} /\ Len(nm) <= NameMax /\ ~Has(fs, Append(dir, nm))
       THEN [ok |-> TRUE, fs |-> (Append(dir, nm) :> Dir) @@ fs]
       ELSE [ok |-> FALSE, fs |-> fs]
(* every directory before the last name *)
MkPath(fs, text) ==
  LET n == Names(text) IN
  FoldLeft(LAMBDA a, i : IF ~a.ok \/ (i = 1 /\ n[1] = <<>>) THEN a ELSE MkDir(a.fs, SubSeq(n, 1, i)),
           [ok |-> TRUE, fs |-> fs], [i \in 1..(Len(n) - 1) |-> i])
(* open for writing, creating if asked: where the file is, Nowhere if that fails *)
RECURSIVE OpenAt(_, _, _, _, _)
OpenAt(fs, cur, names, creat, hops) ==
  IF names = <<>> \/ hops = 0 THEN [at |-> Nowhere, fs |-> fs]
  ELSE LET dir == Walk(fs, cur, Front1(names), hops)  nm == Last1(names)  at == Append(dir, nm)  no == [at |-> Nowhere, fs |-> fs] IN
       IF dir = Nowhere \/ ~IsDir(fs, dir) \/ nm \in {<<>>, Dot, DotDot} \/ Len(nm) > NameMax THEN no
       ELSE IF ~Has(fs, at) THEN IF creat THEN [at |-> at, fs |-> (at :> File) @@ fs] ELSE no
       ELSE CASE fs[at].k = "file" -> [at |-> at, fs |-> fs]
              [] fs[at].k = "dir" -> no
              [] fs[at].k = "link" -> OpenAt(fs, dir, fs[at].to, creat, hops - 1)
OpenFile(fs, text, creat) == IF text = <<>> THEN [at |-> Nowhere, fs |-> fs] ELSE OpenAt(fs, <<>>, Names(text), creat, 40)
(* the tree given as a list of [p |-> names, k |-> kind, to |-> names] *)
Tree(list) == [at \in {<<>>} \cup {list[i].p : i \in 1..Len(list)} |->
                 IF at = <<>> THEN Dir ELSE LET e == list[CHOOSE i \in 1..Len(list) : list[i].p = at] IN [k |-> e.k, to |-> e.to]]
(* permissions of what is made, as sets of bits: everything but writing by others, less the mask *)
Made(k, mask) == (IF k = "dir" THEN {0, 2, 3, 5, 6, 7, 8} ELSE {2, 5, 7, 8}) \ mask
MadeRight(news, mask) == \A i \in 1..Len(news) : LET b == news[i].m IN {b[j] : j \in 1..Len(b)} = Made(news[i].k, mask)
=============================================================================
