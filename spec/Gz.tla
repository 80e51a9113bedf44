-------------------------------- MODULE Gz ----------------------------------
(* A compressed log: a sequence of members, each a header, blocks and a      *)
(* trailer, possibly cut or damaged.  What its reading gives: the lines that *)
(* could be decoded, then the end or an error.                               *)
EXTENDS Naturals, Sequences, FiniteSets

(* symbols of the stream; a block decodes to its characters: "n" is the newline, the others are identified texts *)
Hdr == [k |-> "h", c |-> <<>>]
Trl == [k |-> "t", c |-> <<>>]
Blk(c) == [k |-> "b", c |-> c]
(* a symbol cut inside: a part of its characters may be decoded; one that can't be decoded at all (a block, or a header or trailer); bytes that are not compressed *)
Part(s) == [k |-> "p", c |-> s.c]
Bad(s) == [k |-> IF s.k = "b" THEN "x" ELSE "y", c |-> s.c]
Raw(c) == [k |-> "r", c |-> c]

Member(blocks) == <<Hdr>> \o [i \in DOMAIN blocks |-> Blk(blocks[i])] \o <<Trl>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Stream(members) == Flat([i \in DOMAIN members |-> Member(members[i])])

(* the plain file *)
RECURSIVE Chars(_)
Chars(s) == IF s = <<>> THEN <<>> ELSE (IF s[1].k \in {"b"} THEN s[1].c ELSE <<>>) \o Chars(Tail(s))

(* the lines: the texts between the newlines, without the empty ones; the tail counts when the file is complete *)
RECURSIVE LinesOf(_, _, _)
LinesOf(cs, cur, eof) ==
  IF cs = <<>> THEN (IF eof /\ cur # <<>> THEN <<cur>> ELSE <<>>)
  ELSE IF cs[1] = "n" THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o LinesOf(Tail(cs), <<>>, eof)
  ELSE LinesOf(Tail(cs), Append(cur, cs[1]), eof)

(* the number of symbols of the longest well formed beginning, and whether the stream is a whole number of members, at least one *)
RECURSIVE Scan(_, _, _)
Scan(s, i, in) ==   \* in: inside a member
  IF i > Len(s) THEN [upto |-> i - 1, whole |-> ~in /\ i > 1]
  ELSE IF (~in /\ s[i].k = "h") THEN Scan(s, i + 1, TRUE)
  ELSE IF in /\ s[i].k = "b" THEN Scan(s, i + 1, TRUE)
  ELSE IF in /\ s[i].k = "t" THEN Scan(s, i + 1, FALSE)
  ELSE [upto |-> i - 1, whole |-> FALSE]
Whole(s) == Scan(s, 1, FALSE).whole
Good(s) == SubSeq(s, 1, Scan(s, 1, FALSE).upto)
LastEnd(s) == LET g == Good(s) IN CHOOSE j \in 0..Len(g) : (j = 0 \/ g[j].k = "t") /\ \A x \in (j + 1)..Len(g) : g[x].k # "t"

(* the result: at least the lines lo, at most the lines hi, which continue them, and the end *)
Lo(s) == LET g == Good(s)
             \* what was decoded together with damaged data is not delivered
             keep == IF Len(g) < Len(s) /\ s[Len(g) + 1].k = "x" THEN SubSeq(g, 1, LastEnd(s)) ELSE g
         IN LinesOf(Chars(keep), <<>>, Whole(s))
Hi(s) == LET g == Good(s)
             more == IF Len(g) < Len(s) /\ s[Len(g) + 1].k = "p" THEN s[Len(g) + 1].c ELSE <<>>
         IN LinesOf(Chars(g) \o more, <<>>, Whole(s))
End(s) == IF Whole(s) THEN "eof" ELSE "error"
IsPref(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================
