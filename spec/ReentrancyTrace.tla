-------------------------- MODULE ReentrancyTrace --------------------------
(* "solo": the result of a use when nobody else was there; "pair": the results *)
(* of two uses in all the ways they were interleaved.                          *)
EXTENDS CallTrace
Solo == TLCEval([l \in {Trace[i].a : i \in {j \in 1..NLines : Trace[j].f = "solo"}} |->
                 {Trace[i].r : i \in {j \in 1..NLines : Trace[j].f = "solo" /\ Trace[j].a = l}}])
(* an interleaved use is a use: NonInterference of Reentrancy.tla, with the solo results for F *)
CallOK(e) ==
  CASE e.f = "solo" -> TRUE
    [] e.f = "pair" -> \A i \in 1..Len(e.outs) : e.outs[i].a \in Solo[e.a] /\ e.outs[i].b \in Solo[e.b]
    [] OTHER -> FALSE
Ok == CallOK(Trace[t])
=============================================================================
