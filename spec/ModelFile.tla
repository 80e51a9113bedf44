----------------------------- MODULE ModelFile ------------------------------
(* The life of a model file: commands of the user with a model option, and   *)
(* what else happens to the files.                                           *)
(*   base:   the content of the baseline, 0 when it is not there             *)
(*   old:    the content of the file that the path command takes as baseline *)
(*   file:   the model file: none, junk, or the baseline it was trained with *)
EXTENDS Naturals, Sequences, FiniteSets

Known(v) == CASE v = 1 -> {1, 2} [] v = 2 -> {1, 3} [] v = 3 -> {2, 3, 4}
Target(t) == CASE t = 1 -> <<1, 2, 3, 9>> [] t = 2 -> <<4, 8, 3, 1>>
(* what is shown of the target with the model of a baseline *)
Shown(t, v) == SelectSeq(Target(t), LAMBDA c : c \notin Known(v))

None == [k |-> "none", v |-> 0]
Junk == [k |-> "junk", v |-> 0]
Of(v) == [k |-> "model", v |-> v]
World == [base : 0..3, old : 0..3, target : 0..2, file : {None, Junk} \cup {Of(v) : v \in 1..3}]

Refused == [ok |-> FALSE, shown |-> <<>>]
Shows(w, v) == [ok |-> TRUE, shown |-> Shown(w.target, v)]
Silent == [ok |-> TRUE, shown |-> <<>>]
R(w, r) == [w |-> w, r |-> r]

(* a command: the world after it and its result *)
Train(w) == IF w.base = 0 THEN R(w, Refused) ELSE R([w EXCEPT !.file = Of(w.base)], Silent)
Diff(w) == IF w.target = 0 \/ w.file # None \/ w.base = 0 THEN R(w, Refused)
           ELSE R([w EXCEPT !.file = Of(w.base)], Shows(w, w.base))
Path(w) == IF w.target = 0 THEN R(w, Refused)
           ELSE IF w.file = Junk THEN R(w, Refused)
           ELSE IF w.file # None THEN R(w, Shows(w, w.file.v))
           ELSE IF w.old = 0 THEN R(w, Refused)
           ELSE R([w EXCEPT !.file = Of(w.old)], Shows(w, w.old))
(* without the model option, the file plays no part *)
PlainDiff(w) == IF w.target = 0 \/ w.base = 0 THEN R(w, Refused) ELSE R(w, Shows(w, w.base))
PlainPath(w) == IF w.target = 0 \/ w.old = 0 THEN R(w, Refused) ELSE R(w, Shows(w, w.old))
(* what happens outside *)
Commands == {"train", "diff", "path", "plain-diff", "plain-path"}
Events == {"base1", "base2", "base0", "old3", "old2", "old0", "target1", "target2", "target0", "rm", "junk", "cut"}
Do(op, w) ==
  CASE op = "train" -> Train(w) [] op = "diff" -> Diff(w) [] op = "path" -> Path(w)
    [] op = "plain-diff" -> PlainDiff(w) [] op = "plain-path" -> PlainPath(w)
    [] op = "base1" -> R([w EXCEPT !.base = 1], Silent) [] op = "base2" -> R([w EXCEPT !.base = 2], Silent) [] op = "base0" -> R([w EXCEPT !.base = 0], Silent)
    [] op = "old3" -> R([w EXCEPT !.old = 3], Silent) [] op = "old2" -> R([w EXCEPT !.old = 2], Silent) [] op = "old0" -> R([w EXCEPT !.old = 0], Silent)
    [] op = "target1" -> R([w EXCEPT !.target = 1], Silent) [] op = "target2" -> R([w EXCEPT !.target = 2], Silent) [] op = "target0" -> R([w EXCEPT !.target = 0], Silent)
    [] op = "rm" -> R([w EXCEPT !.file = None], Silent) [] op = "junk" -> R([w EXCEPT !.file = Junk], Silent)
    [] op = "cut" -> R(IF w.file.k = "model" THEN [w EXCEPT !.file = Junk] ELSE w, Silent)
Start == [base |-> 1, old |-> 3, target |-> 1, file |-> None]
=============================================================================
