------------------------------ MODULE Detector ------------------------------
(* What the inspection of a target must report, one line at a time.          *)
(*                                                                           *)
(* A line has a class (its tokens), an identity (its coordinate among the    *)
(* lines read), and its physical line number.  novel tells whether its       *)
(* distance to the baselines is above the threshold.  Only the first line of *)
(* a class can be an anomaly.  Each anomaly has up to Ctx lines before and   *)
(* after, no line is shown twice, and the marker ends the inspection.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Ctx

Min(a, b) == IF a < b THEN a ELSE b
LastN(s, n) == SubSeq(s, Len(s) - Min(n, Len(s)) + 1, Len(s))

(* seen: the classes already searched (shared by the sources of an index);   *)
(* i: lines read; phys: physical lines; cur: the anomaly whose after context *)
(* is being collected; recent: the lines not shown yet since the last shown  *)
(* one, at most Ctx; out: the anomalies reported.                            *)
Start(seen) == [seen |-> seen, i |-> 0, phys |-> 0, cur |-> <<>>, recent |-> <<>>, out |-> <<>>, stopped |-> FALSE]

Flush(st) == [st EXCEPT !.out = @ \o st.cur, !.cur = <<>>]

Anomalous(st, cls, novel) == novel /\ cls \notin st.seen

Report(st0, c) ==
  LET st == Flush(st0) IN
  [st EXCEPT !.cur = <<[line |-> c, no |-> st.phys, before |-> st.recent, after |-> <<>>]>>, !.recent = <<>>]

(* a run of k lines that are not anomalies, with coordinates a .. a+k-1 *)
Quiet(st, a, k) ==
  LET room == IF st.cur = <<>> THEN 0 ELSE Ctx - Len(st.cur[1].after)
      used == Min(room, k)
      cur == IF st.cur = <<>> THEN <<>>
             ELSE <<[st.cur[1] EXCEPT !.after = @ \o [j \in 1..used |-> a + j - 1]]>>
      full == cur # <<>> /\ Len(cur[1].after) = Ctx
      rest == k - used
      tail == IF st.cur = <<>> THEN st.recent ELSE <<>>
      n == Min(rest, Ctx)
      rec == LastN(tail \o [j \in 1..n |-> a + k - n + j - 1], Ctx)
  IN [st EXCEPT !.cur = IF full THEN <<>> ELSE cur,
                !.out = IF full THEN @ \o cur ELSE @,
                !.recent = rec]

(* one line *)
Line(st, cls, novel) ==
  IF st.stopped THEN st
  ELSE LET s1 == [st EXCEPT !.i = @ + 1, !.phys = @ + 1]
           s2 == IF Anomalous(st, cls, novel) THEN Report(s1, s1.i) ELSE Quiet(s1, s1.i, 1)
       IN [s2 EXCEPT !.seen = @ \cup {cls}]

(* k lines that are in the baselines (their classes need not be remembered) *)
KnownRun(st, k) ==
  IF st.stopped \/ k = 0 THEN st
  ELSE Quiet([st EXCEPT !.i = @ + k, !.phys = @ + k], st.i + 1, k)

Blank(st, k) == IF st.stopped THEN st ELSE [st EXCEPT !.phys = @ + k]
Marker(st) == [st EXCEPT !.stopped = TRUE]
Finish(st) == Flush(st)
=============================================================================
