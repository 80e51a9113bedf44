----------------------------- MODULE RemoteGen ------------------------------
(* Histories of runs on a remote target whose server changes between runs.   *)
EXTENDS Remote, SequencesExt, Json, IOUtils
CONSTANT Fam

B1 == [id |-> 11, group |-> "g1", lines |-> <<1, 2, 3, 4, 1, 2>>]
B2 == [id |-> 12, group |-> "g2", lines |-> <<5, 6, 7, 8>>]
T1 == [id |-> 1, group |-> "g1", lines |-> <<<<1, 9, 2, 2, 2, 2, 2, 2, 2, 10, 3, 9>>, <<2, 2, 11, 12, 1, 10>>>>]
T2 == [id |-> 2, group |-> "g2", lines |-> <<<<5, 13, 5, 14>>, <<>>>>]
T3 == [id |-> 3, group |-> "g3", lines |-> <<<<16, 1>>, <<17>>>>]
One == [base |-> <<B1>>, target |-> <<T1, T2, T3>>]
Two == [base |-> <<B1, B2>>, target |-> <<T1, T2, T3>>]

Good == [ver |-> 1, how |-> "ok"]
Srv(w) == [root |-> "ok", sub |-> "ok", broot |-> "ok", api |-> "ok", builds |-> "ok", head |-> "ok",
           files |-> [i \in DOMAIN w.target |-> Good], base |-> [i \in DOMAIN w.base |-> "ok"]]
Op(kind, cached, srv) == [kind |-> kind, cached |-> cached, srv |-> srv]
Y == TRUE
N == FALSE
Modes == {<<Y, Y, Y>>, <<Y, N, Y>>, <<N, Y, Y>>, <<N, N, N>>, <<Y, Y, N>>}
H(w, kind, m, s) == [world |-> w, ops |-> [i \in DOMAIN s |-> Op(kind, m[i], s[i])]]

(* one log in every state, twice, then changed or gone *)
States == {[ver |-> 0, how |-> "ok"], Good, [ver |-> 2, how |-> "ok"], [ver |-> 1, how |-> "bad"], [ver |-> 1, how |-> "cut"],
           [ver |-> 2, how |-> "cut"], [ver |-> 1, how |-> "early"], [ver |-> 3, how |-> "ok"], [ver |-> 4, how |-> "ok"]}
With(w, x) == [Srv(w) EXCEPT !.files[1] = x]
FileCases(x_) == {H(w, k, m, <<With(w, a), With(w, b), With(w, c)>>) : w \in {Two},
                  k \in {"dir", "both", "build"}, m \in Modes, a \in States, b \in States, c \in {[ver |-> 2, how |-> "ok"], [ver |-> 1, how |-> "bad"]}}

AloneCases(x_) == {H(w, "file", m, <<With(w, a), With(w, b), With(w, c)>>) : w \in {One, Two}, m \in Modes, a \in States, b \in States, c \in {[ver |-> 2, how |-> "ok"]}}
(* a fault anywhere else, twice *)
Faults(w) == {Srv(w), [Srv(w) EXCEPT !.root = "bad"], [Srv(w) EXCEPT !.sub = "bad"], [Srv(w) EXCEPT !.broot = "bad"], [Srv(w) EXCEPT !.api = "bad"],
              [Srv(w) EXCEPT !.api = "junk"], [Srv(w) EXCEPT !.builds = "bad"], [Srv(w) EXCEPT !.builds = "junk"], [Srv(w) EXCEPT !.head = "no"], [Srv(w) EXCEPT !.head = "cut"],
              [Srv(w) EXCEPT !.base[1] = "bad"], [Srv(w) EXCEPT !.base[1] = "cut"], [Srv(w) EXCEPT !.base[1] = "early"], [Srv(w) EXCEPT !.base[1] = "cut", !.files[1] = [ver |-> 2, how |-> "ok"]]}
Down(w) == [Srv(w) EXCEPT !.api = "bad", !.builds = "bad", !.head = "no", !.root = "bad", !.broot = "bad", !.base[1] = "bad", !.files[1].how = "bad", !.files[3].how = "bad"]
FaultCases(x_) == {H(w, k, m, <<a, b, c>>) : k \in {"both", "build"}, w \in {One, Two}, m \in Modes, a \in Faults(Two), b \in Faults(Two), c \in {Srv(Two), Down(Two)}}
(* the availability of the logs of the baseline *)
Heads(w) == {[Srv(w) EXCEPT !.head = h] : h \in {"ok", "no", "cut"}}
HeadCases(x_) == {H(One, "build", m, <<a, b, c>>) : m \in Modes, a \in Heads(One), b \in Heads(One), c \in {Srv(One), Down(One)}}
(* the worlds have as many baselines as the server *)
Fit(h) == [h EXCEPT !.ops = [i \in DOMAIN @ |-> [@[i] EXCEPT !.srv.base = SubSeq(@, 1, Len(h.world.base))]]]

(* each log in its own state, four runs *)
StateSeq == SetToSeq(States)
Pick(n) == <<StateSeq[1 + (n % 9)], StateSeq[1 + ((n \div 9) % 9)], StateSeq[1 + ((n \div 81) % 9)]>>
Mix(x_) == {LET S(q) == [Srv(w) EXCEPT !.files = Pick(q % 729)] IN H(w, k, m, <<S(n), S(37 * n + 11), S(101 * n + 5), S(n)>>) :
            n \in 0..728, w \in {One, Two}, k \in {"dir", "both", "build"}, m \in {<<Y, Y, Y, Y>>, <<Y, N, Y, Y>>, <<N, N, N, N>>}}

Cases == CASE Fam = "alone" -> AloneCases(0) [] Fam = "file" -> FileCases(0) [] Fam = "fault" -> {Fit(h) : h \in FaultCases(0)} [] Fam = "head" -> HeadCases(0) [] Fam = "mix" -> Mix(0)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
