------------------------------- MODULE GzGen --------------------------------
(* Compressed files, all the ways to damage them, and what reading gives.    *)
EXTENDS Gz, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxMembers, MaxBlocks

Shapes == {"e", "a", "n", "an", "ana"}
Id(m, b, i) == ToString(m) \o "." \o ToString(b) \o "." \o ToString(i)
Piece(sh, m, b) == CASE sh = "e" -> <<>> [] sh = "a" -> <<Id(m, b, 1)>> [] sh = "n" -> <<"n">>
                     [] sh = "an" -> <<Id(m, b, 1), "n">> [] sh = "ana" -> <<Id(m, b, 1), "n", Id(m, b, 2)>>
Members == UNION {[1..n -> Shapes] : n \in 1..MaxBlocks}
Files == UNION {[1..n -> Members] : n \in 1..MaxMembers}
Concrete(f) == [m \in DOMAIN f |-> [b \in DOMAIN f[m] |-> Piece(f[m][b], m, b)]]

Res(s) == [lo |-> Lo(s), hi |-> Hi(s), end |-> End(s)]
Case(f) == LET c == Concrete(f) s == Stream(c) n == Len(s) IN
  [members |-> c, whole |-> Res(s),
   cut |-> [k \in 1..n |-> Res(SubSeq(s, 1, k - 1))],             \* before the symbol k
   inside |-> [k \in 1..n |-> Res(Append(SubSeq(s, 1, k - 1), Part(s[k])))],
   bad |-> [k \in 1..n |-> Res([s EXCEPT ![k] = Bad(@)])],
   garbage |-> Res(Append(s, Raw(<<"r">>))), text |-> Res(<<Raw(Chars(s))>>)]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(f) : f \in Files}))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
