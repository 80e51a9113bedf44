------------------------------ MODULE LineGen -------------------------------
(* The conformance cases of the line reader at the real constants: every     *)
(* short input, and every combination of segments around the length limit    *)
(* and the buffer size, with the lines that LineSplit says must come out.    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
CONSTANTS SmallLen, JsonLen, Depth, Fam

L == INSTANCE LineSplit
MaxLine == 6000

RECURSIVE Join(_, _)
(* concatenation of runs, keeping them maximal *)
Join(a, b) == IF b = <<>> THEN a ELSE Join(L!Push(a, b[1][1], b[1][2]), Tail(b))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Join(Head(ss), Concat(Tail(ss)))
Flat(s) == Concat([i \in DOMAIN s |-> <<<<s[i], 1>>>>])

Case(runs, json) == [runs |-> runs, json |-> json, exp |-> L!Split(runs, json, MaxLine),
                      expf |-> L!SplitBeforeFailure(runs, json, MaxLine)]

Strings(alpha, n) == UNION {[1..k -> alpha] : k \in 0..n}

Small == {Case(Flat(s), FALSE) : s \in Strings({"x", "b", "n", "N"}, SmallLen)}
SmallJson == {Case(Flat(s), TRUE) : s \in Strings({"x", "b", "n", "N", "c", "q"}, JsonLen)}
             \cup {Case(Flat(s), TRUE) : s \in Strings({"x", "o", "p", "u", "v", "q"}, JsonLen - 1)}
             \cup {Case(Flat(s), FALSE) : s \in Strings({"x", "o", "v", "c", "q"}, JsonLen - 2)}

Sep == {<<<<"N", 1>>>>, <<<<"b", 1>>, <<"n", 1>>>>, <<<<"b", 1>>, <<"N", 1>>>>, <<<<"N", 2>>>>,
        <<<<"b", 2>>, <<"n", 1>>>>, <<<<"b", 3>>, <<"n", 1>>>>}
JSep == Sep \cup {<<<<"c", 1>>>>, <<<<"q", 1>>, <<"c", 1>>>>, <<<<"v", 1>>, <<"N", 1>>>>}
End == {<<>>, <<<<"N", 1>>>>, <<<<"b", 1>>>>, <<<<"b", 1>>, <<"n", 1>>>>}

Lens == {1, 5998, 5999, 6000, 6001, 6002}
BigLens == {2191, 2192, 2193, 8190, 8191, 8192, 8193, 12000, 16384, 24577}

(* one segment around the limit, then a short one, then the end *)
Limit ==
  {Case(Concat(<<<<<<"x", l>>>>, s, <<<<"y", m>>>>, e>>), FALSE) :
      l \in Lens \cup BigLens, s \in Sep, m \in {1, 5999, 6000, 6001}, e \in End}
  \cup {Case(Concat(<<<<<<"x", l>>>>, s, <<<<"y", 4>>>>, e>>), TRUE) :
      l \in Lens \cup BigLens, s \in JSep, e \in End}

(* a first line that moves the following characters around the buffer size *)
Shift ==
  {Case(Concat(<<<<<<"x", 4000>>, <<"N", 1>>, <<"y", l>>>>, Flat(t), <<<<"z", 3>>>>>>), FALSE) :
      l \in {4186, 4187, 4188, 4189, 4190, 4191, 4192}, t \in Strings({"b", "n", "N"}, Depth)}

(* two segments around the limit *)
Pair ==
  {Case(Concat(<<<<<<"x", l>>>>, s, <<<<"y", m>>>>, t, <<<<"z", 2>>>>>>), FALSE) :
      l \in {1, 6000, 6001, 8191, 8192}, m \in {1, 2191, 6000, 6001, 8192, 20000}, s \in Sep, t \in Sep}

(* many lines: blank ones in a row, and texts *)
Counts == {254, 255, 256, 257, 511, 512, 513, 65534, 65535, 65536, 65537, 100000}
(* n lines of 1 to k characters *)
Lines(n, k, s) ==
  [i \in 1..(n * (1 + Len(s))) |->
     LET j == (i - 1) \div (1 + Len(s))  r == (i - 1) % (1 + Len(s)) IN
     IF r = 0 THEN <<IF j % 2 = 1 THEN "x" ELSE "y", 1 + (j % k)>> ELSE s[r]]
Count ==
  {Case(<<<<"x", 2>>, <<"N", a>>, <<"y", 1>>, <<"N", b>>, <<"z", 3>>>> \o t, FALSE) :
      a \in {c \in Counts : c < 1000}, b \in {1, 254, 255, 256, 257}, t \in {<<>>, <<<<"N", 2>>, <<"x", 1>>, <<"b", 1>>, <<"n", 1>>, <<"y", 2>>, <<"N", 1>>>>}}
  \cup {Case(<<<<"x", 2>>, <<"N", a>>, <<"y", 1>>, <<"N", 1>>, <<"z", 3>>>>, FALSE) : a \in Counts}
  \cup {Case(<<<<"x", 2>>, <<"N", a>>, <<"y", 1>>, <<"c", 1>>, <<"z", 3>>, <<"N", 2>>, <<"y", 1>>>>, TRUE) : a \in Counts}
  \cup {Case(Lines(n, k, s), FALSE) : n \in {300, 520}, k \in {3, 50}, s \in Sep}

Cases ==
  CASE Fam = "small" -> Small \cup SmallJson
    [] Fam = "limit" -> Limit \cup Shift
    [] Fam = "pair" -> Pair
    [] Fam = "count" -> Count

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
ASSUME PrintT(<<"cases", Cardinality(Cases)>>)

VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
