------------------------------- MODULE FsLaws -------------------------------
(* What making a path must mean, over all small trees and path texts.          *)
EXTENDS Fs
CONSTANTS MaxLen
A == <<97>>  B == <<98>>
Spots == {<<A>>, <<B>>, <<A, A>>, <<A, B>>, <<B, A>>}
Kinds == {Dir, File, Link(<<A>>), Link(<<B>>), Link(<<DotDot, B>>), Link(<<<<122>>>>)}
Trees == UNION {{f \in [S \cup {<<>>} -> Kinds] : f[<<>>] = Dir /\ \A at \in S : f[Front1(at)].k = "dir"} : S \in {X \in SUBSET Spots : \A at \in X : Front1(at) \in X \cup {<<>>}}}
Texts == UNION {[1..n -> {97, 98, 46, 47}] : n \in 1..MaxLen}
VARIABLES fs, text
Init == fs \in Trees /\ text \in Texts /\ \A i \in 1..Len(text) : (text[i] = 46 => (i = 1 \/ text[i - 1] \in {46, 47}) /\ (i = Len(text) \/ text[i + 1] \in {46, 47}))
Next == UNCHANGED <<fs, text>>
Spec == Init /\ [][Next]_<<fs, text>>
M == MkPath(fs, text)
N == Names(text)
Laws ==
  /\ \A at \in DOMAIN fs : M.fs[at] = fs[at]                                 \* what exists is left alone
  /\ \A at \in DOMAIN M.fs \ DOMAIN fs : M.fs[at] = Dir                      \* only directories are made
  /\ \A at \in DOMAIN M.fs \ {<<>>} : Has(M.fs, Front1(at))
  /\ M.ok => \A i \in 1..(Len(N) - 1) : LET w == Find(M.fs, SubSeq(N, 1, i)) IN w # Nowhere /\ IsDir(M.fs, w)
  /\ M.ok => MkPath(M.fs, text) = M                                          \* once is enough
  /\ ~M.ok => ~MkPath(M.fs, text).ok
  /\ (~\E i \in 1..Len(text) : text[i] = Slash) => M = [ok |-> TRUE, fs |-> fs]
  \* after a successful mkpath a file can be made there unless something is
  /\ M.ok /\ Last1(N) \notin {<<>>, Dot, DotDot} => LET w == Find(M.fs, N)  o == OpenFile(M.fs, text, TRUE) IN (o.at = Nowhere => w # Nowhere \/ Has(M.fs, Append(Find(M.fs, Front1(N)), Last1(N))))
=============================================================================
