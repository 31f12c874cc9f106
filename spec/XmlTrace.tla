------------------------------ MODULE XmlTrace ------------------------------
EXTENDS CallTrace
X == INSTANCE Xml
B == INSTANCE XmlBind
Loads(e) == {e.l[i] : i \in 1..Len(e.l)}
LoadOK(e) ==
  LET d == X!Parse(e.x) IN
  /\ e.fd = 0
  /\ \A l \in Loads(e) : l.unsaid = 0     \* a member that was set was said to be
  /\ CASE d.st = "ok" -> LET v == B!Bind(e.sch, d.root[1]) IN \A l \in Loads(e) : l.r = 0 /\ B!Match("st", "", e.sch, v, l.o)
       [] d.st = "bad" -> \A l \in Loads(e) : l.r = 1 /\ l.nm = 1
       [] OTHER -> \A l, k \in Loads(e) : l.r = k.r /\ (l.r = 0 => l.o = k.o) /\ (l.r # 0 => l.r = 1 /\ l.nm = 1)
Ok == LET e == Trace[t] IN
      CASE e.f = "load" -> LoadOK(e)
        [] e.f = "long" -> e.same = <<TRUE, TRUE, TRUE>> /\ e.fd = 0
        [] e.f = "nofile" -> e.r = 1 /\ e.nm = 1 /\ e.fd = 0
        [] OTHER -> FALSE
=============================================================================
