----------------------------- MODULE LineSplit -----------------------------
(* What a reader of log lines must deliver, as a function of the bytes only. *)
(*                                                                           *)
(* An input is a sequence of runs <<c, k>>: the character class c, k times.  *)
(* The special classes are:                                                  *)
(*   "N" newline, "b" backslash, "n" the letter n, and in JSON mode          *)
(*   "c" comma, "o"/"p" open/close bracket, "u"/"v" open/close brace,        *)
(*   "q" double quote.                                                       *)
(* Every other class is an ordinary byte.                                    *)
EXTENDS Naturals, Sequences

JsonSep == {"c", "o", "p", "u", "v"}

(* Append k times c to a sequence of runs, keeping the runs maximal. *)
Push(runs, c, k) ==
  IF k = 0 THEN runs
  ELSE IF Len(runs) > 0 /\ runs[Len(runs)][1] = c
       THEN [runs EXCEPT ![Len(runs)] = <<c, @[2] + k>>]
       ELSE Append(runs, <<c, k>>)

(* Remove the last character. *)
Chop(runs) ==
  IF runs[Len(runs)][2] = 1 THEN SubSeq(runs, 1, Len(runs) - 1)
  ELSE [runs EXCEPT ![Len(runs)] = <<@[1], @[2] - 1>>]

(* The splitter: cur is the segment being read and len its length, esc tells *)
(* that a backslash is pending, str that we are in a JSON string, phys is    *)
(* the number of newlines read, out the lines delivered so far.              *)
Start == [cur |-> <<>>, len |-> 0, esc |-> FALSE, str |-> FALSE, phys |-> 0, out |-> <<>>]

Deliver(st, line, len, max) ==
  IF len >= 1 /\ len <= max THEN Append(st.out, [no |-> st.phys + 1, txt |-> line]) ELSE st.out

(* A separator ends the segment. *)
End(st, line, len, max, nl) ==
  [st EXCEPT !.cur = <<>>, !.len = 0, !.esc = FALSE,
             !.phys = @ + (IF nl THEN 1 ELSE 0), !.out = Deliver(st, line, len, max)]

Step(st, c, json, max) ==
  IF st.esc
  THEN CASE c = "n" -> End(st, Chop(st.cur), st.len - 1, max, FALSE)
         [] c = "N" -> End(st, st.cur, st.len, max, TRUE)
         [] OTHER   -> [st EXCEPT !.cur = Push(@, c, 1), !.len = @ + 1, !.esc = FALSE]
  ELSE CASE c = "N" -> End(st, st.cur, st.len, max, TRUE)
         [] json /\ ~st.str /\ c \in JsonSep -> End(st, st.cur, st.len, max, FALSE)
         [] OTHER   -> [st EXCEPT !.cur = Push(@, c, 1), !.len = @ + 1, !.esc = (c = "b"),
                                  !.str = IF json /\ c = "q" THEN ~@ ELSE @]

(* k times the same character, in one go. *)
StepRun(st0, c, k, json, max) ==
  LET st == Step(st0, c, json, max)  m == k - 1 IN
  IF m = 0 THEN st
  ELSE CASE c = "N" -> [st EXCEPT !.phys = @ + m]
         [] json /\ ~st.str /\ c \in JsonSep /\ ~st.esc ->
              Step(st, c, json, max)        \* the segments in between are empty
         [] OTHER -> [st EXCEPT !.cur = Push(@, c, m), !.len = @ + m,
                                !.esc = IF c = "b" THEN (IF m % 2 = 0 THEN @ ELSE ~@) ELSE FALSE,
                                !.str = IF json /\ c = "q" /\ m % 2 = 1 THEN ~@ ELSE @]

RECURSIVE Feed(_, _, _, _, _)
Feed(st, runs, i, json, max) ==
  IF i > Len(runs) THEN st
  ELSE Feed(StepRun(st, runs[i][1], runs[i][2], json, max), runs, i + 1, json, max)

(* The lines of a complete input. *)
Split(runs, json, max) ==
  LET st == Feed(Start, runs, 1, json, max) IN Deliver(st, st.cur, st.len, max)

(* The lines that are complete before a reading failure: the tail without a  *)
(* separator is not one of them.                                             *)
SplitBeforeFailure(runs, json, max) == Feed(Start, runs, 1, json, max).out

(* -- facts about the definition itself, checked by TLC in LineSplitMC ----- *)
RECURSIVE Size(_)
Size(runs) == IF runs = <<>> THEN 0 ELSE runs[1][2] + Size(Tail(runs))
=============================================================================
