----------------------------- MODULE SocketsMC -----------------------------
(* Whatever is connected, sent, received and closed, in any order: what each   *)
(* end has received is the beginning of what the other sent.                   *)
EXTENDS Sockets
CONSTANTS NCon, MaxSent
VARIABLES sent, got, order, taken
vars == <<lst, con, sent, got, order, taken>>
A1 == <<127, 0, 0, 1>>  A2 == <<127, 0, 0, 2>>
Ends == {"c", "s"}
Init == SInit /\ sent = [i \in 1..NCon |-> Both(<<>>)] /\ got = [i \in 1..NCon |-> Both(<<>>)] /\ order = <<>> /\ taken = <<>>
Keep == UNCHANGED <<sent, got, order, taken>>
Usable(i, d) == i \in DOMAIN con /\ con[i].open[d] /\ (d = "s" => con[i].taken)
DoListen == \E l \in {1, 2}, a \in {A1, Anywhere}, p \in {1, 2} : Listen(l, a, p) /\ Keep
DoConnect == \E i \in 1..NCon, p \in {1, 2} : (\A j \in 1..(i - 1) : j \in DOMAIN con) /\ Connect(i, A1, 10 + i, A1, p) /\ order' = Append(order, i) /\ UNCHANGED <<sent, got, taken>>
DoAccept == \E l \in DOMAIN lst : lst[l].q # <<>> /\ LET i == Head(lst[l].q) IN Accept(l, i, con[i].ip) /\ taken' = Append(taken, i) /\ UNCHANGED <<sent, got, order>>
DoSend == \E i \in DOMAIN con, d \in Ends, n \in 1..2, r \in -1..2 :
            LET bytes == [x \in 1..n |-> Len(sent[i][d]) + x] IN
            /\ Usable(i, d) /\ Len(sent[i][d]) + n <= MaxSent /\ Send(i, d, bytes, r)
            /\ sent' = [sent EXCEPT ![i][d] = @ \o Take(bytes, IF r < 0 THEN 0 ELSE r)] /\ UNCHANGED <<got, order, taken>>
DoRecv == \E i \in DOMAIN con, d \in Ends, n \in 1..2, r \in -1..2 :
            /\ Usable(i, d) /\ Recv(i, d, n, r, Take(con[i].to[d], IF r < 0 THEN 0 ELSE r))
            /\ got' = [got EXCEPT ![i][d] = @ \o Take(con[i].to[d], IF r < 0 THEN 0 ELSE r)] /\ UNCHANGED <<sent, order, taken>>
DoClose == \E i \in DOMAIN con, d \in Ends : Usable(i, d) /\ Close(i, d) /\ Keep
DoShut == \E l \in DOMAIN lst : Shut(l) /\ Keep
Next == DoListen \/ DoConnect \/ DoAccept \/ DoSend \/ DoRecv \/ DoClose \/ DoShut
Spec == Init /\ [][Next]_vars
Prefixed == \A i \in DOMAIN con, d \in Ends : Starts(sent[i][Peer(d)], got[i][d])
(* nothing is lost on the way while nobody has closed *)
Whole == \A i \in DOMAIN con, d \in Ends : con[i].open["c"] /\ con[i].open["s"] => got[i][d] \o con[i].to[d] = sent[i][Peer(d)]
OneEach == \A a, b \in DOMAIN lst : a # b => ~Clash(lst[a], lst[b])
OnceTaken == \A i, j \in 1..Len(taken) : i # j => taken[i] # taken[j]
Waiting == \A i \in DOMAIN con : con[i].taken \/ \E l \in DOMAIN lst : i \in Members(lst[l].q)
=============================================================================
