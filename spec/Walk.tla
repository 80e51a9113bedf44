-------------------------------- MODULE Walk --------------------------------
(* The directory walk on every small tree: directories, files and symbolic   *)
(* links (to anything, cycles included).  It must list every regular file    *)
(* below the root once, never go through a link, and end.                    *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS N, Variant
ASSUME Variant \in {"fixed", "follow", "list-links"}
Nodes == 1..N     \* node 1 is the root directory

VARIABLES kind, parent, to, stack, listed, steps
vars == <<kind, parent, to, stack, listed, steps>>

Init == /\ kind \in [Nodes -> {"dir", "file", "link"}] /\ kind[1] = "dir"
        /\ parent \in [Nodes -> Nodes] /\ parent[1] = 1
        /\ \A n \in Nodes \ {1} : parent[n] < n /\ kind[parent[n]] = "dir"
        /\ to \in [Nodes -> Nodes] /\ \A n \in Nodes : kind[n] # "link" => to[n] = n
        /\ stack = <<1>> /\ listed = <<>> /\ steps = 0

RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o ToSeq(s \ {x})
Children(n) == {c \in Nodes \ {1} : parent[c] = n}

Visit == /\ stack # <<>> /\ steps < 4 * N * N
         /\ LET n == Head(stack)
                m == IF kind[n] = "link" /\ Variant = "follow" THEN to[n] ELSE n IN
            /\ stack' = (IF kind[m] = "dir" THEN ToSeq(Children(m)) ELSE <<>>) \o Tail(stack)
            /\ listed' = IF kind[m] = "file" \/ (kind[m] = "link" /\ Variant = "list-links") THEN Append(listed, m) ELSE listed
         /\ steps' = steps + 1
         /\ UNCHANGED <<kind, parent, to>>
Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Regular == {n \in Nodes : kind[n] = "file"}
Once == \A i, j \in DOMAIN listed : listed[i] = listed[j] => i = j
Exact == stack = <<>> => {listed[i] : i \in DOMAIN listed} = Regular
Only == {listed[i] : i \in DOMAIN listed} \subseteq Regular
Ends == steps <= N
=============================================================================
