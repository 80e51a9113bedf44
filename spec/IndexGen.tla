------------------------------ MODULE IndexGen ------------------------------
(* Sets of baselines and targets with the expected distances.  A line is a   *)
(* sequence of word numbers (repeated words and the order do not matter);    *)
(* the empty sequence is the empty line, which has a single empty word, 0.   *)
(* frac is the square of the best similarity, exactly, as a fraction.        *)
EXTENDS IndexDist, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
CONSTANTS Fam, NWords, NBase

SetOf(l) == IF l = <<>> THEN {0} ELSE {l[i] : i \in DOMAIN l}
Case(base, targets) ==
  [base |-> base, targets |-> targets,
   frac |-> [i \in DOMAIN targets |-> LET s == Best(SetOf(targets[i]), {SetOf(base[j]) : j \in DOMAIN base}) IN <<s.n, s.d>>],
   exp |-> [i \in DOMAIN targets |-> Distance(SetOf(targets[i]), {SetOf(base[j]) : j \in DOMAIN base})]]

AllLines(n) == {SetToSeq(s) : s \in SUBSET (1..n)}
Targets(n) == SetToSeq(AllLines(n + 1))
(* every set of up to NBase baselines over NWords words, against every line *)
Small(x_) == {Case(SetToSeq(b), Targets(NWords)) : b \in UNION {kSubset(k, AllLines(NWords)) : k \in 0..NBase}}

(* repeated words and duplicate lines *)
Rep(x_) == {Case(b, t) : b \in {<<<<1, 1, 2>>, <<2, 1>>>>, <<<<3, 3, 3>>, <<1>>, <<3>>>>, <<<<>>, <<1, 2, 1, 2, 1>>>>, <<<<1>>, <<1>>, <<1>>, <<2, 2>>>>},
                         t \in {<<<<1, 2>>, <<2, 2, 1>>, <<3>>, <<3, 1, 3>>, <<>>, <<4>>, <<1, 1, 1, 1, 2>>, <<4, 4>>>>, <<<<>>, <<>>>>, <<<<2>>, <<2>>, <<2, 2>>>>}}

(* long lines sharing i words out of a and b, at every position of the baselines *)
Run(a, n) == [i \in 1..n |-> a + i - 1]
Over(a, b, i) == Case(<<Run(70, 3), Run(1, a), Run(80, 5)>>, <<Run(a - i + 1, b), Run(90, 4), Run(70, 3), Run(1, a)>>)
Long(x_) == {Over(a, b, i) : a \in {1, 2, 9, 10, 30}, b \in {1, 2, 9, 10, 30}, i \in {0, 1}}
       \cup {Over(a, b, i) : a \in {9, 10, 30}, b \in {9, 10, 30}, i \in 2..9}

(* many baselines: the matching one is at position p *)
Many(n, p) == Case([j \in 1..n |-> IF j = p THEN Run(1, 5) ELSE Run(30 + (j % 40), 4)], <<Run(1, 5), Run(2, 5), Run(3, 6), Run(100, 3), Run(40, 4)>>)
Big(x_) == {Many(n, p) : n \in {8, 511, 512, 513}, p \in {1, 2, 8}} \cup {Many(513, p) : p \in {511, 512, 513}} \cup {Many(512, 512), Many(1030, 1025)}

(* lines that get closer and closer to the target *)
Closer(a, ms) == Case([j \in DOMAIN ms |-> Run(1 + ms[j], a)], <<Run(1, a), Run(2, a), Run(1, a - 1), Run(3, a - 1)>>)
Close(x_) == {Closer(a, ms) : a \in {12, 30, 40}, ms \in {<<0>>, <<1>>, <<1, 0>>, <<2, 1>>, <<2, 1, 0>>, <<3, 2, 1>>, <<5, 3, 1>>, <<4, 4, 1>>}}

(* empty words: a space at an end, or two in the middle *)
Empty(x_) == {Case(b, t) : b \in {<<<<1, 0>>>>, <<<<0, 1>>, <<2>>>>, <<<<1, 0, 2>>, <<0, 0>>>>, <<<<1>>, <<>>>>},
                           t \in {<<<<1>>, <<0>>, <<>>, <<1, 0>>, <<0, 1>>, <<0, 0, 2>>, <<1, 2>>, <<2, 0, 1>>>>}}

(* lines of many words, all as long, of which the best shares the most words; a word in a thousand may be confused with another *)
MaxOf(S) == CHOOSE m \in S : \A o \in S : o <= m
EqDist(t, bs) == 1000 - (1000 * MaxOf({Cardinality(t \cap b) : b \in bs})) \div Cardinality(t)
Huge(a, ms, t) == [base |-> [j \in DOMAIN ms |-> Run(1 + ms[j], a)], targets |-> <<Run(1 + t, a)>>, slack |-> 4,
                   exp |-> <<EqDist({t + i : i \in 1..a}, {{ms[j] + i : i \in 1..a} : j \in DOMAIN ms})>>]
Wide(x_) == {Huge(a, ms, t) : a \in {100, 500, 1200, 1600}, ms \in {<<0>>, <<300, 50>>, <<20, 900>>, <<60, 120, 240>>}, t \in {0, 10, 50, 150, 800}}

(* thousands of baselines in one matrix, or thousands of targets; the lines have three words *)
Line3(j) == <<1 + (j % 90), 101 + (j \div 90), 201 + (j % 7)>>
Best3(t, bs) == MaxOf({Cardinality(t \cap b) : b \in bs} \cup {0})
Case3(base, targets) ==
  LET bs == {SetOf(base[j]) : j \in DOMAIN base}
      best == [i \in DOMAIN targets |-> Best3(SetOf(targets[i]), bs)]
  IN [base |-> base, targets |-> targets,
      frac |-> [i \in DOMAIN targets |-> <<best[i] * best[i], 9>>], exp |-> [i \in DOMAIN targets |-> 1000 - (1000 * best[i]) \div 3]]
Vast(n, t) == LET at(i) == 1 + ((i * 997) % n) IN
  {Case3([j \in 1..n |-> Line3(j)], [i \in 1..t |-> IF i % 3 = 0 THEN <<1 + (i % 90), 101 + (at(i) \div 90), 300>>
                                                   ELSE IF i = 1 THEN Line3(n) ELSE IF i % 7 = 1 THEN <<310 + i, 301, 302>> ELSE Line3(at(i))])}
Crowd(n) == {Case3(<<Line3(5), Line3(n), <<401, 402, 403>>, Line3(90)>>, [j \in 1..n |-> IF j % 5 = 0 THEN <<401, 402, 101 + (j % 60)>> ELSE Line3(j)])}
Large(x_) == UNION {Vast(n, 40) : n \in {2100, 5000, 9000}} \cup UNION {Crowd(n) : n \in {1030, 4100, 8200}}

Cases == CASE Fam = "small" -> Small(0) [] Fam = "other" -> Rep(0) \cup Long(0) \cup Big(0) \cup Close(0) \cup Empty(0)
           [] Fam = "wide" -> Wide(0) [] Fam = "large" -> Large(0)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
