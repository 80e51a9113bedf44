----------------------------- MODULE DatasetGen -----------------------------
EXTENDS Dataset, SequencesExt, Json, IOUtils, TLC
CONSTANT Fam
Texts == [form : {"full", "word", "padded", "empty", "upper", "more", "dot"}, class : {1, 7, 8, 9}]
D(g, f, n, s) == [good |-> g, fail |-> f, inf |-> n, state |-> s]
Fails == {<<>>, <<1>>, <<7>>, <<1, 7>>, <<7, 8>>, <<8, 7>>, <<7, 7, 8>>, <<1, 8, 1, 7, 9>>}
Exact(g, f) == [i \in DOMAIN Found(D(g, f, <<>>, "ok")) |-> [form |-> "full", class |-> Found(D(g, f, <<>>, "ok"))[i]]]
(* the exact list, and the lists that differ from it: one text changed, one removed, one added, two exchanged *)
Near(e) == {e} \cup {[e EXCEPT ![i] = t] : i \in DOMAIN e, t \in Texts}
               \cup {SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e)) : i \in DOMAIN e}
               \cup {SubSeq(e, 1, i) \o <<t>> \o SubSeq(e, i + 1, Len(e)) : i \in 0..Len(e), t \in Texts}
               \cup {[e EXCEPT ![i] = e[j], ![j] = e[i]] : i \in DOMAIN e, j \in DOMAIN e}
Singles(x_) == UNION {{D(g, f, n, "ok") : n \in Near(Exact(g, f))} : g \in {{1}, {1, 2, 8}, {}}, f \in Fails}
States == {"no-dir", "no-inf", "no-good", "no-fail", "bad-yaml", "no-list", "bad-item", "inf-dir", "good-dir", "fail-dir", "good-open", "fail-open", "fail-utf8", "empty-dir"}
Broken(x_) == {D({1}, <<1, 7>>, Exact({1}, <<1, 7>>), s) : s \in States} \cup {D({1}, <<1>>, <<>>, s) : s \in States}
(* long targets: the anomalies are in several chunks *)
Long(n, k) == [i \in 1..n |-> IF i % k = 7 \/ i = n THEN 100 + i ELSE 1]
BigOf(n, k) == LET e == TLCEval(Exact({1}, Long(n, k))) IN
             {D({1}, Long(n, k), l, "ok") : l \in {e, Tail(e), SubSeq(e, 1, Len(e) - 1), Append(e, e[1]), [e EXCEPT ![Len(e)] = e[1]]}}
Big(x_) == UNION {BigOf(n, 251) : n \in {255, 511, 512, 513, 770, 1100}} \cup UNION {BigOf(n, 13) : n \in {40, 127, 260, 1100}}
Cases == CASE Fam = "big" -> {[sets |-> <<d>>, pass |-> Passes(d)] : d \in Big(0)}
           [] Fam = "single" -> {[sets |-> <<d>>, pass |-> Passes(d)] : d \in Singles(0)}
           [] Fam = "broken" -> {[sets |-> <<d>>, pass |-> Passes(d)] : d \in Broken(0)}
           [] Fam = "many" -> LET ok == D({1}, <<1, 7>>, Exact({1}, <<1, 7>>), "ok")
                                  ok2 == D({1, 8}, <<8, 1>>, <<>>, "ok")
                                  ko == D({1}, <<1, 7, 8>>, Exact({1}, <<1, 7>>), "ok")
                                  ko2 == D({1}, <<1, 7>>, <<>>, "no-inf")
                              IN {[sets |-> s, pass |-> AllPass(s)] : s \in UNION {[1..n -> {ok, ok2, ko, ko2}] : n \in 1..4}}
           [] Fam = "long" -> LET ok == D({1}, <<1, 7>>, Exact({1}, <<1, 7>>), "ok")
                                  ko == D({1}, <<1, 7, 8>>, Exact({1}, <<1, 7>>), "ok")
                                  ko2 == D({1}, <<1, 7>>, <<>>, "no-inf")
                              IN {[sets |-> s, pass |-> AllPass(s)] : s \in {[i \in 1..n |-> IF i = k THEN b ELSE ok] : n \in {26, 70}, k \in {0, 1, 13, 26, 70}, b \in {ko, ko2}}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
