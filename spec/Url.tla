-------------------------------- MODULE Url --------------------------------
(* C21 absolute URLs, C22 relative URLs and URL objects as values.             *)
EXTENDS Bytes
Http == <<104, 116, 116, 112, 58, 47, 47>>                 \* http://
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>           \* https://
Mailto == <<109, 97, 105, 108, 116, 111, 58>>              \* mailto:
Javascript == <<106, 97, 118, 97, 115, 99, 114, 105, 112, 116, 58>>
Nothing == [url |-> <<>>, dom |-> <<>>]
Fetchable(flags) == flags % 2 = 1
SameDomain(flags) == (flags \div 2) % 2 = 1
Before(s, c) == LET i == FirstOf(s, c) IN IF i = 0 THEN s ELSE Take(s, i - 1)
From(s, c) == LET i == FirstOf(s, c) IN IF i = 0 THEN <<>> ELSE Drop(s, i - 1)
HostByte(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {46, 58, 45, 95}            \* . : - _
TrimDots(h) == LET a == FirstFrom(h, 1, LAMBDA x : x # 46)
                   b == LastFrom(h, Len(h), LAMBDA x : x # 46)
               IN IF a = 0 THEN <<>> ELSE SubSeq(h, a, b)
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE <<47>> \o Head(ps) \o Join(Tail(ps))
Dot == <<46>>
DotDot == <<46, 46>>
(* the path of a text starting with "/": no empty, "." or ".." segments        *)
Resolve(path, keepSlash) ==
  LET raw == Tail(SplitBy(path, LAMBDA c : c = 47))
      segs == FoldLeft(LAMBDA a, x : IF x \in {<<>>, Dot} THEN a
                                     ELSE IF x = DotDot THEN (IF a = <<>> THEN a ELSE Front(a))
                                     ELSE Append(a, x), <<>>, raw)
      slash == raw[Len(raw)] \in {<<>>, Dot, DotDot}
  IN IF segs = <<>> THEN <<47>> ELSE Join(segs) \o (IF slash /\ keepSlash THEN <<47>> ELSE <<>>)
(* path and query of a text starting with "/" *)
PathQuery(x, flags) == Resolve(Before(x, 63), Fetchable(flags)) \o From(x, 63)
LastTwo(host) == LET ls == SplitBy(host, LAMBDA c : c = 46) n == Len(ls) IN
                 IF n < 2 THEN host ELSE ls[n - 1] \o Dot \o ls[n]
Absolute(u) == StartsCI(u, Http) \/ StartsCI(u, Https)
Abs(u, flags) ==
  LET scheme == IF StartsCI(u, Https) THEN Https ELSE Http
      rest == Before(IF Absolute(u) THEN Drop(u, Len(scheme)) ELSE u, 35)
      n == LET i == FirstFrom(rest, 1, LAMBDA c : ~HostByte(c)) IN IF i = 0 THEN Len(rest) ELSE i - 1
      host == TrimDots(LowSeq(Take(rest, n)))
      tail == Drop(rest, n)
      path == IF tail # <<>> /\ tail[1] = 47 THEN tail ELSE <<47>> \o tail
  IN [url |-> scheme \o host \o PathQuery(path, flags), dom |-> LastTwo(host)]
(* scheme and host of a normalised URL, and the rest of it *)
AnchorLen(url) == LET k == IF Starts(url, Https) THEN 8 ELSE 7 IN FirstFrom(url, k + 1, LAMBDA c : c = 47) - 1
Refused(u) == StartsCI(u, Mailto) \/ StartsCI(u, Javascript) \/ u[1] = 35
Rel(u, flags, parent) ==
  LET a == AnchorLen(parent.url)
      anchor == Take(parent.url, a)
      path == Before(Drop(parent.url, a), 63)
      t == Before(u, 35)
      dir == IF t[1] = 47 THEN <<>> ELSE Take(path, LastOf(path, 47))
  IN [url |-> anchor \o PathQuery(dir \o t, flags), dom |-> parent.dom]
(* results of the operations: <<return value, new object>> *)
CreateAbs(o, u, flags) == IF o # Nothing \/ u = <<>> THEN <<-1, Nothing>> ELSE <<0, Abs(u, flags)>>
CreateRel(o, u, flags, parent) ==
  IF o # Nothing \/ u = <<>> \/ parent = Nothing THEN <<-1, Nothing>>
  ELSE IF Absolute(u)
       THEN LET r == Abs(u, flags) IN IF SameDomain(flags) /\ ~EqCI(r.dom, parent.dom) THEN <<-1, Nothing>> ELSE <<0, r>>
       ELSE IF Refused(u) THEN <<-1, Nothing>> ELSE <<0, Rel(u, flags, parent)>>
(* the last two labels are not well defined when a label inside is empty *)
OddHost(o) == LET h == SubSeq(o.url, (IF Starts(o.url, Https) THEN 9 ELSE 8), AnchorLen(o.url)) IN
              \E i \in 1..(Len(h) - 1) : h[i] = 46 /\ h[i + 1] = 46
Same(seen, want) == seen.url = want.url /\ (seen.dom = want.dom \/ (want.url # <<>> /\ OddHost(want)))
=============================================================================
