-------------------------- MODULE ChunkedDetector ---------------------------
(* The inspection as implemented: lines are buffered, the unique ones are    *)
(* searched by chunks, the context is taken from the buffer, and what could  *)
(* be the context of an anomaly of the next chunk is carried over.  Must     *)
(* report what Detector defines, for every input and every alignment.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Known, Novel, MaxLen, Chunk, BufLimit, Ctx, Variant
ASSUME Variant \in {"fixed", "legacy-overlap", "legacy-eof", "legacy-stop"}

D == INSTANCE Detector

(* input: the lines read so far; ref: the state of the reference on them *)
VARIABLES input, ref, eof, seen, buf, tgt, left, cur, queue, out, phase, stopped
vars == <<input, ref, eof, seen, buf, tgt, left, cur, queue, out, phase, stopped>>

Classes == Known \cup Novel
Ord == CHOOSE f \in [Classes -> 1..Cardinality(Classes)] : \A a, b \in Classes : a # b => f[a] # f[b]
Alphabet == Classes \cup {"marker"}

Init == /\ input = <<>> /\ ref = D!Start({}) /\ eof = FALSE /\ seen = {} /\ buf = <<>> /\ tgt = <<>> /\ left = <<>>
        /\ cur = <<>> /\ queue = <<>> /\ out = <<>> /\ phase = "read" /\ stopped = FALSE

Max2(a, b) == IF a > b THEN a ELSE b
Sub0(a, b) == IF a > b THEN a - b ELSE 0

(* the before context: from the buffer after the last shown line, completed  *)
(* by the left overs of the previous chunk                                   *)
Before(bp, lcp) ==
  LET from == Max2(lcp, Sub0(bp, Ctx))
      own == SubSeq(buf, from + 1, bp)
      need == Ctx - Len(own)
  IN IF from = 0 /\ need > 0 THEN D!LastN(left, need) \o own ELSE own

AddAfter(s, line) ==      \* s: [cur, q]
  LET c == [s.cur[1] EXCEPT !.after = Append(@, line)] IN
  IF Len(c.after) >= Ctx THEN [s EXCEPT !.cur = <<>>, !.q = Append(@, c)]
  ELSE [s EXCEPT !.cur = <<c>>]

(* advance in the buffer up to the target number k *)
RECURSIVE Walk(_, _)
Walk(s, k) ==
  IF k > Len(tgt) THEN s
  ELSE LET t == tgt[k]
           b == s.bp + 1
           line == buf[b]
           hit == line = t.coord
       IN IF hit /\ t.novel
          THEN LET s1 == IF s.cur = <<>> THEN s ELSE [s EXCEPT !.cur = <<>>, !.q = Append(@, s.cur[1])]
                   a == [line |-> line, no |-> line, before |-> Before(b - 1, s.lcp), after |-> <<>>]
               IN Walk([s1 EXCEPT !.bp = b, !.lcp = b, !.cur = <<a>>], k + 1)
          ELSE LET s1 == IF s.cur = <<>> THEN [s EXCEPT !.bp = b]
                         ELSE [AddAfter(s, line) EXCEPT !.bp = b, !.lcp = b]
               IN Walk(s1, IF hit THEN k + 1 ELSE k)

(* the lines after the last target *)
RECURSIVE TailAfter(_)
TailAfter(s) ==
  IF s.cur = <<>> \/ s.lcp >= Len(buf) THEN s
  ELSE LET s1 == AddAfter(s, buf[s.lcp + 1]) IN
       IF Variant = "legacy-overlap"
       THEN LET s2 == TailAfter([s1 EXCEPT !.lcp = @ + 1]) IN [s2 EXCEPT !.lcp = s.lcp]
       ELSE TailAfter([s1 EXCEPT !.lcp = @ + 1])

Search == LET w == Walk([bp |-> 0, lcp |-> 0, cur |-> cur, q |-> queue], 1) IN TailAfter(w)

DoSearch(s) ==
  /\ cur' = s.cur /\ queue' = s.q
  /\ left' = SubSeq(buf, Max2(s.lcp, Sub0(Len(buf), Ctx)) + 1, Len(buf))
  /\ buf' = <<>> /\ tgt' = <<>>

(* the classes of a kind are interchangeable: a new one is the first unused *)
Usable(c) == IF c \in seen \/ c = "marker" THEN TRUE
             ELSE \A d \in (IF c \in Known THEN Known ELSE Novel) \ seen : Ord[c] <= Ord[d]

(* one line of the reader *)
ReadLine(c) ==
  /\ phase = "read" /\ ~stopped /\ ~eof /\ Len(input) < MaxLen /\ Usable(c)
  /\ input' = Append(input, c)
  /\ LET coord == Len(input) + 1 IN
     IF c = "marker"
     THEN /\ stopped' = (Variant # "legacy-stop") /\ phase' = "end" /\ ref' = D!Marker(ref)
          /\ UNCHANGED <<seen, buf, tgt, left, cur, queue>>
     ELSE LET new == c \notin seen IN
          /\ ref' = D!Line(ref, c, c \in Novel)
          /\ buf' = Append(buf, coord) /\ seen' = seen \cup {c}
          /\ tgt' = IF new THEN Append(tgt, [coord |-> coord, novel |-> c \in Novel]) ELSE tgt
          /\ phase' = IF (new /\ Len(tgt) + 1 = Chunk) \/ (~new /\ Len(buf) + 1 > BufLimit)
                      THEN "search" ELSE "read"
          /\ UNCHANGED <<left, cur, queue, stopped>>
  /\ UNCHANGED <<out, eof>>

(* the reader has no more lines *)
Eof == /\ phase = "read" /\ ~stopped /\ ~eof /\ eof' = TRUE
       /\ UNCHANGED <<input, ref, seen, buf, tgt, left, cur, queue, out, phase, stopped>>

SearchChunk ==
  /\ phase = "search" /\ DoSearch(Search)
  /\ phase' = IF Search.q # <<>> THEN "emit" ELSE "read"
  /\ UNCHANGED <<input, ref, eof, seen, out, stopped>>

EndOfFile ==
  /\ \/ phase = "read" /\ (stopped \/ eof)
     \/ phase = "end"
  /\ LET s == Search
         search == IF Variant = "legacy-eof" THEN tgt # <<>> ELSE buf # <<>>
         c == IF search THEN s.cur ELSE cur
         q == (IF search THEN s.q ELSE queue) \o c IN
     /\ queue' = q /\ cur' = <<>> /\ buf' = <<>> /\ tgt' = <<>>
     /\ left' = IF search THEN SubSeq(buf, Max2(s.lcp, Sub0(Len(buf), Ctx)) + 1, Len(buf)) ELSE left
     /\ phase' = IF q = <<>> THEN "done" ELSE "emit"
  /\ UNCHANGED <<input, ref, eof, seen, out, stopped>>

Emit ==
  /\ phase = "emit"
  /\ out' = Append(out, Head(queue)) /\ queue' = Tail(queue)
  /\ phase' = IF Len(queue) = 1 THEN "read" ELSE "emit"
  /\ UNCHANGED <<input, ref, eof, seen, buf, tgt, left, cur, stopped>>

Next == (\E c \in Alphabet : ReadLine(c)) \/ Eof \/ SearchChunk \/ EndOfFile \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Lines(o) == [k \in DOMAIN o |-> o[k].line]
(* C04 and C05: the anomalies, in order, each once *)
Reported == IF phase \in {"read", "search"} /\ ~stopped /\ ~eof THEN ref.out ELSE D!Finish(ref).out
AnomaliesExact == /\ IsPrefixOf(Lines(out), Lines(Reported))
                  /\ phase = "done" => Lines(out) = Lines(Reported)
(* C06 *)
ContextsExact == IsPrefixOf(out, D!Finish(ref).out)
Shown(o) == UNION {{<<k, "b", j>> : j \in DOMAIN o[k].before} \cup {<<k, "a", j>> : j \in DOMAIN o[k].after} \cup {<<k, "l", 1>>} : k \in DOMAIN o}
At(o, x) == CASE x[2] = "b" -> o[x[1]].before[x[3]] [] x[2] = "a" -> o[x[1]].after[x[3]] [] OTHER -> o[x[1]].line
NoLineTwice == \A x, y \in Shown(out) : At(out, x) = At(out, y) => x = y
Contiguous == \A k \in DOMAIN out : LET a == out[k] IN
   /\ Len(a.before) <= Ctx /\ Len(a.after) <= Ctx
   /\ \A j \in DOMAIN a.before : a.before[j] = a.line - Len(a.before) + j - 1
   /\ \A j \in DOMAIN a.after : a.after[j] = a.line + j
(* C07: nothing at or after the marker is shown *)
MarkerAt == IF \E k \in DOMAIN input : input[k] = "marker"
            THEN CHOOSE k \in DOMAIN input : input[k] = "marker" /\ \A j \in 1..(k - 1) : input[j] # "marker"
            ELSE Len(input) + 1
StopsForGood == \A x \in Shown(out) : At(out, x) < MarkerAt
Terminates == <>(phase = "done")
=============================================================================
