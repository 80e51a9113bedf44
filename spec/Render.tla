------------------------------- MODULE Render -------------------------------
(* The rows of a source: what the live output and the page show.             *)
(* an anomaly: [no, before, after]: its number and the number of lines of    *)
(* its contexts.  A row: ctx (a context line), hit (the anomaly), sep.       *)
(* And the page as text: characters are classes, the text of a log is        *)
(* escaped, a reader of HTML finds it back and nothing else.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Variant
ASSUME Variant \in {"fixed", "sep-always", "sep-pos", "no-amp", "no-quote", "no-lt", "twice"}

Row(k, n, t) == [kind |-> k, no |-> n, text |-> t]
(* the context lines are numbered from the number of the anomaly *)
RowsOf(a, i) ==
  [j \in 1..a.before |-> Row("ctx", a.no - a.before + j - 1, <<i, "b", j>>)]
  \o <<Row("hit", a.no, <<i, "a", 0>>)>>
  \o [j \in 1..a.after |-> Row("ctx", a.no + j, <<i, "f", j>>)]
LastNo(a) == a.no + a.after
FirstNo(a) == a.no - a.before
Sep == Row("sep", 0, <<0, "", 0>>)
NeedSep(a, b) == CASE Variant = "sep-always" -> TRUE [] Variant = "sep-pos" -> b.no # LastNo(a) + 1 [] OTHER -> FirstNo(b) # LastNo(a) + 1
RECURSIVE Rows(_, _)
Rows(as, i) == IF i > Len(as) THEN <<>>
  ELSE (IF i > 1 /\ NeedSep(as[i - 1], as[i]) THEN <<Sep>> ELSE <<>>) \o RowsOf(as[i], i) \o Rows(as, i + 1)

(* a separator is shown exactly between rows whose numbers do not follow each other *)
SepOK(as) == LET r == Rows(as, 1) IN
  /\ \A k \in 1..(Len(r) - 1) : r[k].kind # "sep" /\ r[k + 1].kind # "sep" => r[k + 1].no = r[k].no + 1
  /\ \A k \in DOMAIN r : r[k].kind = "sep" => k > 1 /\ k < Len(r) /\ r[k + 1].no # r[k - 1].no + 1

\* ------------------------------------------------------------------ the page
(* the characters: lt gt amp quot apos semi, the letters of the entities, a space, others *)
Esc1(c) == CASE c = "lt" /\ Variant # "no-lt" -> <<"amp", "l", "t", "semi">> [] c = "gt" -> <<"amp", "g", "t", "semi">>
             [] c = "amp" /\ Variant # "no-amp" -> <<"amp", "a", "m", "p", "semi">>
             [] c = "quot" /\ Variant # "no-quote" -> <<"amp", "q", "u", "o", "t", "semi">>
             [] OTHER -> <<c>>
RECURSIVE EscOnce(_)
EscOnce(t) == IF t = <<>> THEN <<>> ELSE Esc1(Head(t)) \o EscOnce(Tail(t))
Escape(t) == IF Variant = "twice" THEN EscOnce(EscOnce(t)) ELSE EscOnce(t)

(* a reader of HTML: in a node (data), in a tag, in a quoted value *)
Ent == <<<<<<"l", "t", "semi">>, "lt">>, <<<<"g", "t", "semi">>, "gt">>, <<<<"a", "m", "p", "semi">>, "amp">>, <<<<"q", "u", "o", "t", "semi">>, "quot">>>>
Matches(t, e) == Len(t) >= Len(e) /\ SubSeq(t, 1, Len(e)) = e
Entity(t) == LET m == {i \in DOMAIN Ent : Matches(t, Ent[i][1])} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
(* reads a text until stop: lt in a node, quot in a value; <<what was read, the rest>> *)
RECURSIVE Read(_, _, _)
Read(t, stop, acc) ==
  IF t = <<>> \/ Head(t) = stop THEN <<acc, t>>
  ELSE IF Head(t) = "amp" /\ Entity(Tail(t)) # 0
       THEN LET e == Ent[Entity(Tail(t))] IN Read(SubSeq(t, Len(e[1]) + 2, Len(t)), stop, Append(acc, e[2]))
  ELSE Read(Tail(t), stop, Append(acc, Head(t)))
(* <x v="VALUE">TEXT</x> : the reader finds the value, the text, and the end *)
Page(v, t) == <<"lt", "x", "sp", "v", "eq", "quot">> \o Escape(v) \o <<"quot", "gt">> \o Escape(t) \o <<"lt", "slash", "x", "gt">>
ReadPage(p) ==
  LET v == Read(SubSeq(p, 7, Len(p)), "quot", <<>>) IN
  IF Len(v[2]) < 2 \/ v[2][2] # "gt" THEN [ok |-> FALSE, v |-> <<>>, t |-> <<>>]
  ELSE LET t == Read(SubSeq(v[2], 3, Len(v[2])), "lt", <<>>) IN [ok |-> t[2] = <<"lt", "slash", "x", "gt">>, v |-> v[1], t |-> t[1]]
PageOK(v, t) == ReadPage(Page(v, t)) = [ok |-> TRUE, v |-> v, t |-> t]
=============================================================================
