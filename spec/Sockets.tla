------------------------------ MODULE Sockets ------------------------------
(* Stream sockets: listeners with queues of connections not yet accepted, and  *)
(* connections, each two ends ("c" connected, "s" accepted) and what is on its *)
(* way to each of them.                                                        *)
EXTENDS Bytes
VARIABLES lst,      \* listener -> [addr, port, q]
          con       \* connection -> [ip, port, to, open, late, torn]
svars == <<lst, con>>
Peer(d) == IF d = "c" THEN "s" ELSE "c"
Anywhere == <<0, 0, 0, 0>>
Clash(a, b) == a.port = b.port /\ (a.addr = b.addr \/ Anywhere \in {a.addr, b.addr})
Both(x) == [c |-> x, s |-> x]
SInit == lst = <<>> /\ con = <<>>
Listen(id, addr, port) ==
  /\ id \notin DOMAIN lst /\ \A o \in DOMAIN lst : ~Clash(lst[o], [addr |-> addr, port |-> port])
  /\ lst' = (id :> [addr |-> addr, port |-> port, q |-> <<>>]) @@ lst /\ UNCHANGED con
Reaches(a, addr, port) == a.port = port /\ a.addr \in {addr, Anywhere}
(* from (ip, port) to (addr, dport) *)
Connect(id, ip, port, addr, dport) ==
  \E l \in DOMAIN lst : /\ Reaches(lst[l], addr, dport) /\ id \notin DOMAIN con
    /\ lst' = [lst EXCEPT ![l].q = Append(@, id)]
    /\ con' = (id :> [ip |-> ip, port |-> port, to |-> Both(<<>>), open |-> Both(TRUE), late |-> Both(FALSE), torn |-> Both(FALSE), taken |-> FALSE]) @@ con
Accept(l, id, ip) ==
  /\ l \in DOMAIN lst /\ lst[l].q # <<>> /\ Head(lst[l].q) = id /\ con[id].ip = ip
  /\ lst' = [lst EXCEPT ![l].q = Tail(@)] /\ con' = [con EXCEPT ![id].taken = TRUE]
(* r of the bytes went off; once the other end is closed they go nowhere, the first time perhaps unnoticed *)
Send(id, d, bytes, r) ==
  /\ UNCHANGED lst /\ con[id].open[d]
  /\ IF con[id].open[Peer(d)]
     THEN r \in 0..Len(bytes) /\ (bytes # <<>> => r > 0) /\ con' = [con EXCEPT ![id].to[Peer(d)] = @ \o Take(bytes, r)]
     ELSE IF r = -1 THEN con' = [con EXCEPT ![id].late[d] = TRUE]
          ELSE r \in 0..Len(bytes) /\ (r > 0 => ~con[id].late[d]) /\ con' = IF r > 0 THEN [con EXCEPT ![id].late[d] = TRUE, ![id].torn[d] = TRUE] ELSE con
Recv(id, d, n, r, bytes) ==
  LET b == con[id].to[d] IN
  /\ UNCHANGED lst /\ con[id].open[d]
  /\ \/ n = 0 /\ r = 0 /\ UNCHANGED con
     \/ r > 0 /\ r <= n /\ r <= Len(b) /\ bytes = Take(b, r) /\ con' = [con EXCEPT ![id].to[d] = Drop(b, r)]
     \/ r = 0 /\ b = <<>> /\ ~con[id].open[Peer(d)] /\ UNCHANGED con           \* the end of the stream
     \/ r \in {0, -1} /\ con[id].torn[d] /\ UNCHANGED con
(* closing with unread data tears the connection *)
Close(id, d) ==
  /\ con[id].open[d] /\ UNCHANGED lst
  /\ con' = [con EXCEPT ![id].open[d] = FALSE, ![id].torn[Peer(d)] = @ \/ con[id].to[d] # <<>>, ![id].to[d] = <<>>]
Shut(l) == l \in DOMAIN lst /\ lst[l].q = <<>> /\ lst' = [x \in DOMAIN lst \ {l} |-> lst[x]] /\ UNCHANGED con
=============================================================================
