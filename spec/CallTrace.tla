----------------------------- MODULE CallTrace -----------------------------
(* Steps through a file of recorded calls, one JSON object per line, in chunks *)
(* so that all workers take part.  The extending module states CallOK.         *)
EXTENDS Bytes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
CHUNK == 32
VARIABLE t
Init == t \in {1 + CHUNK * j : j \in 0..((NLines - 1) \div CHUNK)}
Next == \/ t % CHUNK # 0 /\ t < NLines /\ t' = t + 1
        \/ (t % CHUNK = 0 \/ t = NLines) /\ t' = t
Spec == Init /\ [][Next]_t
=============================================================================
