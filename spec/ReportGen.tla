----------------------------- MODULE ReportGen ------------------------------
(* Worlds of baseline and target files, and their check by ReportTrace.      *)
EXTENDS Report, SequencesExt, Json, IOUtils, TLC
CONSTANTS Fam, Slots

(* a slot is a place for a file: its group and the variant of its name *)
F(g, v, lines, end) == [group |-> g, variant |-> v, lines |-> lines, end |-> end]
BaseFiles == {F("g1", 1, <<1, 2>>, "eof"), F("g1", 2, <<3>>, "eof"), F("g2", 1, <<1, 4>>, "fail")}
Bases == SUBSET BaseFiles \ {{}}

Options == <<[lines |-> <<1, 9>>, end |-> "eof"], [lines |-> <<1, 9, 2, 8>>, end |-> "fail"], [lines |-> <<9>>, end |-> "open"],
             [lines |-> <<1>>, end |-> "eof"], [lines |-> <<4, 3, 9, 7, 2, 1, 8, 1, 1, 1, 1, 6>>, end |-> "eof"]>>
Places == SubSeq(<<<<"g1", 1>>, <<"g2", 1>>, <<"g1", 2>>, <<"g3", 1>>>>, 1, Slots)
States == [1..Slots -> 0..Len(Options)]
Target(c) == LET used == SelectSeq([i \in 1..Slots |-> i], LAMBDA i : c[i] # 0) IN
             [k \in DOMAIN used |-> LET i == used[k] IN
               [id |-> k, group |-> Places[i][1], variant |-> Places[i][2], lines |-> Options[c[i]].lines, end |-> Options[c[i]].end]]
World(b, c) == [base |-> SetToSeq(b), target |-> Target(c)]

(* several baselines of the same group, longer targets, more groups *)
T(i, g, v, l, e) == [id |-> i, group |-> g, variant |-> v, lines |-> l, end |-> e]
Seq100(n) == [i \in 1..n |-> IF i % 37 = 5 THEN 10 + i ELSE 1]
(* anomalies at every small distance of each other *)
RECURSIVE Gaps(_)
Gaps(k) == IF k = 0 THEN <<>> ELSE Gaps(k - 1) \o [i \in 1..k |-> 1] \o <<200 + k>>
Wide(x_) == {[base |-> <<F("g1", 1, <<1>>, "eof"), F("g1", 3, <<2>>, e), F("g2", 1, <<5>>, "eof"), F("g2", 2, <<>>, "eof")>>,
              target |-> <<T(1, "g1", 1, Seq100(n), "eof"), T(2, "g2", 1, <<5, 6>>, f), T(3, "g3", 1, <<1>>, "eof"),
                           T(4, "g1", 2, <<15, 42, 1, 1, 77>> \o Gaps(9), "eof"), T(5, "g3", 2, <<1>>, f), T(6, "g4", 1, <<>>, "eof")>>] :
              e \in {"eof", "fail"}, f \in {"eof", "fail", "open"}, n \in {3, 40, 120}}

(* many distinct lines, and many anomalies, before another source of the same group *)
Huge(x_) == {[base |-> <<F("g1", 1, [i \in 1..n |-> 2000 + i], "eof"), F("g2", 1, <<1>>, "eof")>>,
              target |-> <<T(1, "g1", 1, [i \in 1..(n + 1) |-> IF i = k THEN 9 ELSE IF i = n + 1 THEN 2001 ELSE 2000 + i], "eof"), T(2, "g2", 1, [i \in 1..m |-> 3000 + i], "eof"),
                           T(3, "g1", 2, <<9, 2001, 8, 2002>>, e)>>] : n \in {1100}, k \in {5, 1101}, m \in {5, 2500}, e \in {"eof", "fail"}}

(* many files of a group, known or not *)
Crowd(x_) == {[base |-> [i \in 1..n |-> F("g1", i, <<100 + i, 1>>, IF i % 9 = 4 THEN "fail" ELSE "eof")] \o <<F("g2", 1, <<5>>, "eof")>>,
               target |-> [i \in 1..n |-> T(i, "g1", i, <<100 + i, 400 + i, 1, 101>>, IF i % 7 = 2 THEN "fail" ELSE "eof")]] : n \in {12, 45, 150}}

Cases == CASE Fam = "crowd" -> Crowd(0) [] Fam = "small" -> {World(b, c) : b \in Bases, c \in States} [] Fam = "wide" -> Wide(0) [] Fam = "huge" -> Huge(0)

ASSUME Fam \in {"huge", "crowd"} \/ \A w \in Cases : Accounted(w.base, w.target)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
