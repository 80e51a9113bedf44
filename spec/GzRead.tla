------------------------------ MODULE GzRead --------------------------------
(* The reader as implemented: the decoder goes from header to blocks to      *)
(* trailer, the decoded characters are delivered in any slices, the lines    *)
(* are cut in what was delivered.  It must give what Gz defines.             *)
EXTENDS Gz, TLC
CONSTANTS Variant, MaxMembers, MaxBlocks
ASSUME Variant \in {"fixed", "first-member", "eof-on-cut", "text-fallback", "no-checksum", "drop-lines", "partial-line"}

Pieces == {<<>>, <<"a">>, <<"n">>, <<"a", "n">>, <<"a", "n", "b">>}
Members == UNION {[1..n -> Pieces] : n \in 1..MaxBlocks}
Files == UNION {[1..n -> Members] : n \in 1..MaxMembers}
Streams(f) == LET s == Stream(f) IN
  {s} \cup {SubSeq(s, 1, k) : k \in 0..(Len(s) - 1)}                                  \* cut between two symbols
      \cup {Append(SubSeq(s, 1, k - 1), Part(s[k])) : k \in 1..Len(s)}                 \* cut inside
      \cup {[s EXCEPT ![k] = Bad(@)] : k \in 1..Len(s)}                                \* damaged
      \cup {Append(s, Raw(<<"r", "n">>)), <<Raw(Chars(s))>>}                          \* garbage at the end, a text

VARIABLES s, pos, phase, pend, lines, cur, end
vars == <<s, pos, phase, pend, lines, cur, end>>
Init == /\ \E f \in Files : s \in Streams(f)
        /\ pos = 1 /\ phase = "start" /\ pend = <<>> /\ lines = <<>> /\ cur = <<>> /\ end = ""

RECURSIVE Split(_, _, _)
Split(cs, c, ls) == IF cs = <<>> THEN [cur |-> c, lines |-> ls]
                    ELSE IF cs[1] = "n" THEN Split(Tail(cs), <<>>, IF c = <<>> THEN ls ELSE Append(ls, c))
                    ELSE Split(Tail(cs), Append(c, cs[1]), ls)
(* a read delivers the decoded characters *)
Deliver == /\ pend # <<>> /\ end = ""
           /\ LET r == Split(pend, cur, lines) IN lines' = r.lines /\ cur' = r.cur
           /\ pend' = <<>> /\ UNCHANGED <<s, pos, phase, end>>
At == IF pos > Len(s) THEN [k |-> "none", c |-> <<>>] ELSE s[pos]
Step(p, out) == pos' = pos + 1 /\ phase' = p /\ pend' = pend \o out /\ UNCHANGED <<s, lines, cur, end>>
Finish(e) == /\ end' = e
             /\ lines' = CASE Variant = "drop-lines" /\ e = "error" -> <<>>
                           [] (e = "eof" \/ Variant = "partial-line") /\ cur # <<>> -> Append(lines, cur)
                           [] OTHER -> lines
             /\ UNCHANGED <<s, pos, phase, pend, cur>>
Stop(e) == pend = <<>> /\ Finish(e)
Decode ==
  /\ end = ""
  /\ CASE phase = "start" /\ At.k = "h" -> Step("body", <<>>)
       [] phase = "start" /\ At.k = "r" /\ Variant = "text-fallback" -> Step("text", At.c)
       [] phase = "text" -> Stop("eof")
       [] phase = "start" -> Stop("error")
       [] phase = "body" /\ At.k = "b" -> Step("body", At.c)
       [] phase = "body" /\ At.k = "t" -> pend = <<>> /\ Step(IF Variant = "first-member" THEN "done" ELSE "next", <<>>)
       [] phase = "body" /\ At.k = "y" /\ Variant = "no-checksum" -> pend = <<>> /\ Step("next", <<>>)
       [] phase = "body" /\ At.k = "p" -> \E n \in 0..Len(At.c) : Step("cut", SubSeq(At.c, 1, n))
       [] phase = "body" /\ At.k = "x" -> \* what was not yet delivered is lost
            /\ end' = "error" /\ pend' = <<>> /\ UNCHANGED <<s, pos, phase, cur>>
            /\ lines' = IF Variant = "drop-lines" THEN <<>> ELSE IF Variant = "partial-line" /\ cur # <<>> THEN Append(lines, cur) ELSE lines
       [] phase \in {"body", "cut"} -> Stop(IF Variant = "eof-on-cut" THEN "eof" ELSE "error")
       [] phase = "done" -> Stop("eof")
       [] phase = "next" /\ At.k = "none" -> Stop("eof")
       [] phase = "next" /\ At.k = "h" -> Step("body", <<>>)
       [] OTHER -> Stop("error")
Next == Deliver \/ Decode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == end # "" => end = End(s) /\ IsPref(Lo(s), lines) /\ IsPref(lines, Hi(s))
(* a complete stream gives the lines of the plain file, whatever the members and blocks *)
Transparent == (end # "" /\ Whole(s)) => lines = LinesOf(Chars(s), <<>>, TRUE)
NeverInvented == \A i \in DOMAIN lines : IsPref(SubSeq(lines, 1, i), LinesOf(Chars([j \in DOMAIN s |-> Blk(s[j].c)]), <<>>, TRUE)) \/ end # ""
Terminates == <>(end # "")
=============================================================================
