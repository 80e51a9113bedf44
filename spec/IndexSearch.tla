----------------------------- MODULE IndexSearch ----------------------------
(* The search by chunks of baselines: whatever the order of the baselines    *)
(* and wherever they are cut into chunks, the result is the distance.        *)
EXTENDS IndexDist, TLC
CONSTANTS Words, MaxBase, Variant

VARIABLES base, todo, target, chunk, best, done
vars == <<base, todo, target, chunk, best, done>>
Lines == SUBSET Words \ {{}}

Init == /\ base \in {b \in SUBSET Lines : Cardinality(b) <= MaxBase}
        /\ target \in Lines /\ todo = base /\ chunk = {} /\ best = [n |-> 0, d |-> 1] /\ done = FALSE

(* a baseline is indexed in the current chunk, in any order *)
Index == \E b \in todo : /\ todo' = todo \ {b} /\ chunk' = chunk \cup {b}
                         /\ UNCHANGED <<base, target, best, done>>
(* the chunk is closed and searched *)
Close == /\ chunk # {}
         /\ LET s == Best(target, chunk) IN
            best' = IF Variant = "last-chunk" THEN s ELSE IF Less(best, s) THEN s ELSE best
         /\ chunk' = {} /\ UNCHANGED <<base, todo, target, done>>
Done == /\ todo = {} /\ chunk = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<base, todo, target, chunk, best>>
Next == Index \/ Close \/ Done
Spec == Init /\ [][Next]_vars

Exact == done => LET e == Best(target, base) IN ~Less(best, e) /\ ~Less(e, best)
Bounds == /\ 0 <= Distance(target, base) /\ Distance(target, base) <= 1000
          /\ (target \in base) => Distance(target, base) = 0
          /\ (\A b \in base : target \cap b = {}) => Distance(target, base) = 1000
Monotone == \A l \in Lines : ~Less(Best(target, base \cup {l}), Best(target, base))
=============================================================================
