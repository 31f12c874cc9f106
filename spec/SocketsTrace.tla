---------------------------- MODULE SocketsTrace ----------------------------
EXTENDS Sockets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k,
          nb,       \* blocking modes: of listeners by number, of ends by <<number, end>>
          lim       \* receive timeouts of ends [sec, usec]
tvars == <<lst, con, t, k, nb, lim>>
Ops == Trace[t].ops
Init == t \in 1..Len(Trace) /\ k = 1 /\ SInit /\ nb = <<>> /\ lim = <<>>
Local(a) == a = Anywhere \/ a[1] = 127
Still == UNCHANGED <<lst, con, nb>>
Failed(e) == e.err = 1 /\ e.r = -1 /\ e.left = 0
DoListen(e) ==
  LET ok == Local(e.addr) /\ ~\E l \in DOMAIN lst : e.want # 0 /\ Clash(lst[l], [addr |-> e.addr, port |-> e.want]) IN
  \/ Failed(e) /\ Still
  \/ IF ok THEN /\ e.r = 0 /\ e.left = 1 /\ e.bound = e.addr /\ e.accepting = 1 /\ (IF e.want = 0 THEN e.port > 0 ELSE e.port = e.want)
                /\ Listen(e.id, e.addr, e.port) /\ e.nbgot = e.nb /\ nb' = (<<e.id>> :> e.nb) @@ nb
     ELSE e.r = -1 /\ Still /\ e.left = 0
DoConnect(e) ==
  /\ e.left = (IF e.r = 0 THEN 1 ELSE 0)
  /\ \/ Failed(e) /\ Still
     \/ e.how = "fails" /\ e.r = -1 /\ Still
     \/ e.how = "later" /\ (e.nb = 1 => e.r = 0 /\ e.nbgot = 1) /\ Still
     \/ e.how = "-" /\
        IF \E l \in DOMAIN lst : Reaches(lst[l], e.addr, e.dport)
        THEN /\ e.r = 0 /\ e.pa = e.addr /\ e.pp = e.dport /\ Connect(e.id, e.ip, e.port, e.addr, e.dport)
             /\ e.nbgot = e.nb /\ nb' = (<<e.id, "c">> :> e.nb) @@ nb
        ELSE Still /\ (e.r = -1 \/ (e.r = 0 /\ e.nb = 1 /\ e.nbgot = 1))       \* refused, perhaps later
DoAccept(e) ==
  \/ Failed(e) /\ e.took = 0 /\ Still
  \/ /\ Failed(e) /\ e.took = 1 /\ UNCHANGED nb                                   \* taken, and closed again
     /\ LET q == lst[e.lid].q  i == Head(q) IN
        /\ q # <<>> /\ lst' = [lst EXCEPT ![e.lid].q = Tail(@)]
        /\ con' = [con EXCEPT ![i].taken = TRUE, ![i].open["s"] = FALSE, ![i].torn["c"] = @ \/ con[i].to["s"] # <<>>, ![i].to["s"] = <<>>]
  \/ IF lst[e.lid].q = <<>> THEN nb[<<e.lid>>] = 1 /\ e.r = -1 /\ e.left = 0 /\ Still
     ELSE LET i == IF e.id = 0 THEN Head(lst[e.lid].q) ELSE e.id IN
          /\ e.r = 0 /\ e.left = 1 /\ (e.as # <<>> => e.ip = e.as) /\ Accept(e.lid, i, IF e.as # <<>> THEN con[i].ip ELSE e.ip)
          /\ e.nbgot = e.nb /\ nb' = (<<i, "s">> :> e.nb) @@ nb
DoSend(e) == /\ UNCHANGED nb
             /\ \/ Send(e.id, e.d, e.s, e.r)
                \/ e.r = -1 /\ nb[<<e.id, e.d>>] = 1 /\ e.out = 0 /\ UNCHANGED <<lst, con>>
Limit(e) == LET x == <<e.id, e.d>> IN IF x \in DOMAIN lim THEN lim[x] ELSE <<0, 0>>
Millis(l) == l[1] * 1000 + l[2] \div 1000
Empty(e) == con[e.id].to[e.d] = <<>> /\ con[e.id].open[Peer(e.d)]
DoRecv(e) ==
  /\ UNCHANGED nb
  /\ \/ Recv(e.id, e.d, e.n, e.r, e.s)
     \/ Empty(e) /\ e.r = -1 /\ nb[<<e.id, e.d>>] = 1 /\ UNCHANGED <<lst, con>>
     \/ Empty(e) /\ e.r = -1 /\ nb[<<e.id, e.d>>] = 0 /\ Limit(e) # <<0, 0>> /\ UNCHANGED <<lst, con>>
        /\ e.ms + 2 >= Millis(Limit(e)) /\ e.ms <= Millis(Limit(e)) + 8000
(* signals while it waits, then something to receive *)
DoWait(e) == UNCHANGED nb /\ Empty(e) /\ e.r > 0 /\ e.r <= e.n /\ e.r <= Len(e.sent) /\ e.s = Take(e.sent, e.r)
             /\ con' = [con EXCEPT ![e.id].to[e.d] = Drop(e.sent, e.r)] /\ UNCHANGED lst
(* one end sends while the other receives everything *)
DoStream(e) == UNCHANGED <<nb, lst>> /\ e.bad = 0 /\ e.got = con[e.id].to[Peer(e.d)] \o e.sent /\ con' = [con EXCEPT ![e.id].to[Peer(e.d)] = <<>>]
(* what was asked for, to a clock tick *)
Rounded(e) == \/ e.gs = e.sec /\ e.gu >= e.usec /\ e.gu <= e.usec + 10000
              \/ e.gs = e.sec + 1 /\ e.gu + 1000000 - e.usec <= 10000
DoTimeout(e) == Still /\ e.r = 0 /\ Rounded(e) /\ lim' = (<<e.id, e.d>> :> <<e.sec, e.usec>>) @@ lim
Event(e) ==
  CASE e.f = "timeout" -> DoTimeout(e)
    [] OTHER -> UNCHANGED lim /\
      CASE e.f = "listen" -> DoListen(e) [] e.f = "connect" -> DoConnect(e) [] e.f = "accept" -> DoAccept(e) [] e.f = "send" -> DoSend(e)
        [] e.f = "recv" -> DoRecv(e) [] e.f = "wait" -> DoWait(e) [] e.f = "stream" -> DoStream(e)
        [] e.f = "setnb" -> UNCHANGED <<lst, con>> /\ e.r = 0 /\ e.nbgot = e.v /\ nb' = [nb EXCEPT ![<<e.id, e.d>>] = e.v]
        [] e.f = "close" -> Close(e.id, e.d) /\ UNCHANGED nb
        [] e.f = "shut" -> Shut(e.id) /\ UNCHANGED nb
Step == k <= Len(Ops) /\ Event(Ops[k]) /\ k' = k + 1 /\ t' = t
Done == k > Len(Ops) /\ UNCHANGED tvars
Spec == Init /\ [][Step \/ Done]_tvars
=============================================================================
