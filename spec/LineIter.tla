------------------------------ MODULE LineIter ------------------------------
(* The buffered line iterator, structured as the implementation: a buffer    *)
(* that is refilled by reads of any size up to Chunk, a scan position, a     *)
(* pending backslash that survives a refill, the state of the last separator *)
(* which drives the line counter, and the two ways of skipping a line that   *)
(* is over the limit.  Every read size and every failure point is explored.  *)
(* The iterator must deliver what LineSplit defines.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alphabet, MaxInput, Chunk, Max, Json, Variant
ASSUME Variant \in {"fixed", "legacy-drop", "legacy-limit", "legacy-backslash"}

L == INSTANCE LineSplit

VARIABLES input, off, buf, prev, esc, str, last, count, dropping, out, phase
vars == <<input, off, buf, prev, esc, str, last, count, dropping, out, phase>>

Runs(s) == [i \in DOMAIN s |-> <<s[i], 1>>]
RECURSIVE Norm(_, _)
Norm(acc, s) == IF s = <<>> THEN acc ELSE Norm(L!Push(acc, Head(s), 1), Tail(s))
Txt(s) == Norm(<<>>, s)

Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxInput}

Init ==
  /\ input \in Inputs /\ off = 0 /\ buf = <<>> /\ prev = 0 /\ esc = FALSE /\ str = FALSE
  /\ last = "nl" /\ count = 0 /\ dropping = FALSE /\ out = <<>> /\ phase = "scan"

(* -- the separator scan --------------------------------------------------- *)
(* One character: <<esc', str', separator or "none">> *)
Scan1(e, s, c) ==
  IF e THEN CASE c = "n" -> <<FALSE, s, "sub">>
              [] c = "N" -> IF Variant = "legacy-backslash" THEN <<FALSE, s, "none">> ELSE <<FALSE, s, "nl">>
              [] OTHER -> <<FALSE, s, "none">>
  ELSE CASE c = "b" -> <<TRUE, s, "none">>
         [] c = "N" -> <<FALSE, s, "nl">>
         [] Json /\ c = "q" -> <<FALSE, ~s, "none">>
         [] Json /\ ~s /\ c \in L!JsonSep -> <<FALSE, s, "json">>
         [] OTHER -> <<FALSE, s, "none">>

RECURSIVE ScanFrom(_, _, _)
(* [found, end, sep, esc, str] *)
ScanFrom(p, e, s) ==
  IF p > Len(buf) THEN [found |-> FALSE, end |-> 0, sep |-> "none", esc |-> e, str |-> s]
  ELSE LET r == Scan1(e, s, buf[p]) IN
       IF r[3] # "none" THEN [found |-> TRUE, end |-> p, sep |-> r[3], esc |-> r[1], str |-> r[2]]
       ELSE ScanFrom(p + 1, r[1], r[2])

SepLen(sep) == IF sep = "sub" THEN 2 ELSE 1
NewCount == IF last = "nl" THEN count + 1 ELSE count
From(s, i) == SubSeq(s, i, Len(s))

(* A separator is in the buffer, the line is within the limit (Step B), over *)
(* the limit (Step I), or being dropped.                                     *)
Found ==
  /\ phase = "scan"
  /\ LET r == ScanFrom(prev + 1, esc, str)
         len == r.end - SepLen(r.sep) IN
     /\ r.found
     /\ esc' = r.esc /\ str' = r.str /\ last' = r.sep /\ count' = NewCount
     /\ prev' = 0 /\ buf' = From(buf, r.end + 1) /\ dropping' = FALSE
     /\ LET over == IF Variant = "legacy-limit" THEN r.end > Max ELSE len > Max IN
        out' = IF dropping \/ over \/ len = 0 THEN out
               ELSE Append(out, [no |-> NewCount, txt |-> Txt(SubSeq(buf, 1, len))])
  /\ UNCHANGED <<input, off, phase>>

(* No separator in the buffer. *)
NeedData ==
  /\ phase = "scan"
  /\ LET r == ScanFrom(prev + 1, esc, str) IN
     /\ ~r.found
     /\ esc' = r.esc /\ str' = r.str
     /\ LET slack == IF r.esc /\ Variant # "legacy-limit" THEN 1 ELSE 0 IN
        IF dropping \/ Len(buf) > Max + slack
        THEN /\ buf' = IF Variant = "legacy-drop" /\ ~dropping THEN <<"N">> ELSE <<>>   \* Step J
             /\ prev' = 0 /\ dropping' = TRUE
        ELSE /\ buf' = buf /\ prev' = Len(buf) /\ dropping' = FALSE                     \* Step E
  /\ phase' = "read"
  /\ UNCHANGED <<input, off, last, count, out>>

Read(n) ==
  /\ phase = "read" /\ n \in 1..Chunk /\ n <= Len(input) - off
  /\ buf' = buf \o SubSeq(input, off + 1, off + n) /\ off' = off + n /\ phase' = "scan"
  /\ UNCHANGED <<input, prev, esc, str, last, count, dropping, out>>

ReadEof ==
  /\ phase = "read" /\ off = Len(input) /\ phase' = "eof"
  /\ IF dropping \/ buf = <<>> \/ Len(buf) > Max
     THEN UNCHANGED <<out, count, last>>
     ELSE /\ out' = Append(out, [no |-> NewCount, txt |-> Txt(buf)])
          /\ count' = NewCount /\ UNCHANGED last
  /\ UNCHANGED <<input, off, buf, prev, esc, str, dropping>>

ReadFails ==
  /\ phase = "read" /\ phase' = "failed"
  /\ UNCHANGED <<input, off, buf, prev, esc, str, last, count, dropping, out>>

Next == Found \/ NeedData \/ (\E n \in 1..Chunk : Read(n)) \/ ReadEof \/ ReadFails
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Consumed == SubSeq(input, 1, off)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Texts(o) == [i \in DOMAIN o |-> o[i].txt]
Nos(o) == [i \in DOMAIN o |-> o[i].no]

(* C01: complete, exact, independent of the reads. *)
LinesExact ==
  LET all == L!Split(Runs(input), Json, Max) IN
  /\ IsPrefixOf(Texts(out), Texts(all))
  /\ phase = "eof" => Texts(out) = Texts(all)
(* C02 *)
NumbersExact ==
  LET all == L!Split(Runs(input), Json, Max) IN IsPrefixOf(Nos(out), Nos(all))
(* C03: at the failure, the complete lines and nothing of the tail. *)
FailureExact == phase \in {"failed", "read"} => out = L!SplitBeforeFailure(Runs(Consumed), Json, Max)
(* C03: bounded memory. *)
BufferBounded == Len(buf) <= Max + 1 + Chunk
(* C03: reading ends. *)
Terminates == <>(phase \in {"eof", "failed"})
=============================================================================
