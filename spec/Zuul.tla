-------------------------------- MODULE Zuul --------------------------------
(* The baseline of a zuul build: among the builds of the same job that the   *)
(* api lists, the best scored one that qualifies.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A listed build, relative to the build under analysis:
     self       it is the build itself
     job, ok    same job, successful
     project, branch   the same ones
     change     "same", "other" or "none"
     pipeline   its name
     voting, age (in days)
     log, ref   it has these urls
     head       the availability of its logs: "yes", "no" or "error"          *)
Base == [self |-> FALSE, job |-> TRUE, ok |-> TRUE, project |-> TRUE, branch |-> TRUE, change |-> "other", pipeline |-> "check",
         voting |-> FALSE, age |-> 5, log |-> TRUE, ref |-> TRUE, head |-> "yes"]

If(c, n) == IF c THEN n ELSE 0
Favored == {"gate", "periodic", "periodic-weekly", "tripleo-gate"}
Score(b) == If(b.project, IF b.change = "same" THEN -500 ELSE 50) + If(b.branch, 50) + If(b.pipeline \in Favored, 50) + If(b.voting, 10)
            - (IF b.age < 0 THEN 0 ELSE b.age)
Qualifies(b) == b.job /\ b.ok /\ ~b.self /\ b.change # "none" /\ b.log /\ b.ref /\ b.head = "yes"
(* the positions of the builds that can be the baseline; none: an error *)
Best(bs) == LET q == {i \in DOMAIN bs : Qualifies(bs[i])} IN {i \in q : \A j \in q : Score(bs[j]) <= Score(bs[i])}

\* ------------------------------------------------------------ the algorithm
(* the candidates are tried by decreasing score, a request each, until one is available *)
CONSTANTS Pool, MaxLen, Variant
ASSUME Variant \in {"fixed", "ascending", "first-only", "unsorted", "keep-self", "no-ref"}
VARIABLES list, tried, result
vars == <<list, tried, result>>
Lists == UNION {[1..n -> Pool] : n \in 0..MaxLen}
Init == list \in Lists /\ tried = {} /\ result = -1
(* what the api gives, and what is kept of it *)
Kept(b) == b.job /\ b.ok /\ (~b.self \/ Variant = "keep-self") /\ b.change # "none" /\ b.log /\ (b.ref \/ Variant = "no-ref")
Left == {i \in DOMAIN list : Kept(list[i])} \ tried
Before(i, j) == CASE Variant = "ascending" -> Score(list[i]) < Score(list[j])
                  [] Variant = "unsorted" -> FALSE
                  [] OTHER -> Score(list[i]) > Score(list[j])
Candidate == CHOOSE i \in Left : \A j \in Left : ~Before(j, i)
Try == /\ result = -1 /\ Left # {} /\ ~(Variant = "first-only" /\ tried # {})
       /\ LET i == Candidate IN IF list[i].head = "yes" THEN result' = i /\ UNCHANGED tried ELSE tried' = tried \cup {i} /\ UNCHANGED result
       /\ UNCHANGED list
End == /\ result = -1 /\ (Left = {} \/ (Variant = "first-only" /\ tried # {})) /\ result' = 0 /\ UNCHANGED <<list, tried>>
Next == Try \/ End
Spec == Init /\ [][Next]_vars
Correct == result # -1 => IF Best(list) = {} THEN result = 0 ELSE result \in Best(list)
=============================================================================
