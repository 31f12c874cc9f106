-------------------------------- MODULE Inet --------------------------------
(* Dotted quads.                                                               *)
EXTENDS Bytes
Octets(s) == SplitBy(s, LAMBDA c : c = 46)
None == <<255, 255, 255, 255>>
Small(d) == LET z == StripZeros(d) IN NumLeq(z, <<50, 53, 53>>)
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
Wrong(s) == LET o == Octets(s) IN Len(o) # 4 \/ \E i \in 1..Len(o) : ~AllDigits(o[i]) \/ (o[i] # <<>> /\ ~Small(o[i]))
Gap(s) == \E i \in 1..Len(Octets(s)) : Octets(s)[i] = <<>>
Addr(s) == LET o == Octets(s) IN [i \in 1..4 |-> Value(StripZeros(o[i]))]
InetOK(e) == IF Wrong(e.s) THEN e.r = None ELSE Gap(e.s) \/ e.r = Addr(e.s)
=============================================================================
