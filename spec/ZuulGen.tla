------------------------------ MODULE ZuulGen -------------------------------
(* Lists of builds for the real discovery: every build that differs from a   *)
(* plain one by up to two fields, alone and in pairs with the neighbours of  *)
(* its score.                                                                *)
EXTENDS Zuul, Json, IOUtils, SequencesExt, FiniteSetsExt
Fields == {<<"self", TRUE>>, <<"job", FALSE>>, <<"ok", FALSE>>, <<"project", FALSE>>, <<"branch", FALSE>>, <<"change", "same">>, <<"change", "none">>,
           <<"pipeline", "gate">>, <<"pipeline", "periodic">>, <<"pipeline", "periodic-weekly">>, <<"pipeline", "tripleo-gate">>, <<"pipeline", "post">>,
           <<"voting", TRUE>>, <<"age", 0>>, <<"age", 4>>, <<"age", 6>>, <<"age", 54>>, <<"age", 56>>, <<"age", 700>>, <<"age", -1>>, <<"age", -80>>,
           <<"log", FALSE>>, <<"ref", FALSE>>, <<"head", "no">>, <<"head", "error">>}
With(b, f) == [b EXCEPT ![f[1]] = f[2]]
One == {Base} \cup {With(Base, f) : f \in Fields}
Two == One \cup {With(With(Base, f), g) : f \in Fields, g \in Fields}
Case(bs) == [builds |-> bs, best |-> Best(bs)]
FamSingles(x_) == {Case(<<b>>) : b \in Two} \cup {Case(<<>>)}
FamPairs(x_) == {Case(<<a, b>>) : a \in One, b \in Two}
(* a better one that is missing something, then the good ones by any order *)
FamTriples(x_) == {Case(bs) : bs \in [1..3 -> {Base, With(Base, <<"pipeline", "gate">>), With(Base, <<"age", 56>>), With(With(Base, <<"pipeline", "gate">>), <<"head", "no">>),
                     With(With(Base, <<"pipeline", "gate">>), <<"self", TRUE>>), With(With(Base, <<"voting", TRUE>>), <<"ref", FALSE>>), With(Base, <<"change", "same">>)}]}
(* long lists: the default page of the api is 50 builds *)
FamLong(x_) == {Case([i \in 1..n |-> IF i = at THEN With(Base, f) ELSE With(Base, <<"age", 40 + (i % 3)>>)]) :
                  n \in {60, 180, 400}, at \in {1, 51, 60}, f \in {<<"voting", TRUE>>, <<"head", "no">>, <<"project", FALSE>>}}
(* the best ones are gone, for a while *)
FamGone(x_) == {Case([i \in 1..(n + 2) |-> IF i = at THEN Base ELSE With(With(Base, <<"pipeline", "gate">>), <<"head", h>>)]) :
                  n \in {3, 10, 30, 120}, at \in {1, 3, 5}, h \in {"no", "error"}}
CONSTANT Fam
Cases == CASE Fam = "singles" -> FamSingles(0) [] Fam = "pairs" -> FamPairs(0) [] Fam = "triples" -> FamTriples(0) [] Fam = "long" -> FamLong(0) \cup FamGone(0)
VARIABLE done
GenInit == done = FALSE /\ list = <<>> /\ tried = {} /\ result = 0
GenNext == /\ ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases)) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_<<done, vars>>
=============================================================================
