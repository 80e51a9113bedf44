------------------------------ MODULE GenTrace ------------------------------
(* The generated lines: asking for n lines gives n lines of 2 to 9 words of  *)
(* 2 to 17 letters or digits, the first n of the same endless sequence.      *)
(* Recorded answers: a sequence of [n, lines]; a line is a sequence of       *)
(* [w |-> number of the word, len |-> its length, ok |-> only letters and    *)
(* digits].                                                                  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Answers == ndJsonDeserialize(IOEnv.TRACE)
WordOk(w) == w.ok /\ w.len >= 2 /\ w.len <= 17
LineOk(l) == Len(l) >= 2 /\ Len(l) <= 9 /\ \A i \in DOMAIN l : WordOk(l[i])
Min(a, b) == IF a < b THEN a ELSE b
VARIABLES i, longest
Init == i = 0 /\ longest = <<>>
Accept(x) == /\ Len(x.lines) = x.n
             /\ \A k \in DOMAIN x.lines : LineOk(x.lines[k])
             /\ \A k \in 1..Min(x.n, Len(longest)) : x.lines[k] = longest[k]
Next == /\ i < Len(Answers) /\ i' = i + 1
        /\ LET x == Answers[i + 1] IN
           /\ IF Accept(x) THEN TRUE ELSE PrintT(<<"REJECT", i + 1>>)
           /\ longest' = IF x.n > Len(longest) THEN x.lines ELSE longest
Spec == Init /\ [][Next]_<<i, longest>>
=============================================================================
