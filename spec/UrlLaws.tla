------------------------------ MODULE UrlLaws ------------------------------
EXTENDS Url
CONSTANTS MaxToks
Toks == {Http, Https, <<72, 84, 84, 80, 83, 58, 47, 47>>, <<97>>, <<66>>, <<46>>, <<46, 46>>, <<47>>, <<63>>, <<35>>, <<58>>}
VARIABLES u, n
Init == u = <<>> /\ n = 0
Next == n < MaxToks /\ n' = n + 1 /\ \E x \in Toks : u' = u \o x
Spec == Init /\ [][Next]_<<u, n>>
Idempotent == u # <<>> => \A f \in {0, 1} : LET r == Abs(u, f) IN Abs(r.url, f) = r
Normal == u # <<>> => \A f \in {0, 1} :
  LET r == Abs(u, f) a == AnchorLen(r.url) path == Before(Drop(r.url, a), 63)
      segs == Tail(SplitBy(path, LAMBDA c : c = 47)) IN
  /\ path # <<>> /\ path[1] = 47
  /\ \A i \in 1..Len(segs) : segs[i] \notin {Dot, DotDot} /\ (segs[i] = <<>> => i = Len(segs) /\ (f = 1 \/ i = 1))
  /\ 35 \notin Members(r.url)
  /\ LowSeq(Take(r.url, a)) = Take(r.url, a)
Parents == {[url |-> Http \o <<97>> \o x, dom |-> <<97>>] : x \in {<<47>>, <<47, 98, 47, 99>>, <<47, 98, 47>>, <<47, 98, 63, 47>>}}
Relative == u # <<>> => \A p \in Parents, f \in {0, 1} :
  LET r == CreateRel(Nothing, u, f, p) IN
  /\ r[1] = -1 => r[2] = Nothing
  /\ r[1] = 0 => Abs(r[2].url, f) = r[2]
  /\ r[1] = 0 /\ ~Absolute(u) => Take(r[2].url, 8) = Http \o <<97>>
=============================================================================
