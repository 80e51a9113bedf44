----------------------------- MODULE DatasetRun -----------------------------
(* The evaluation as implemented: the datasets one by one, the expected      *)
(* texts and the anomalies side by side, then the counts.                    *)
EXTENDS Dataset, TLC
CONSTANTS Variant, MaxSets
ASSUME Variant \in {"fixed", "zip-only", "at-least", "any-order", "last-result", "skip-missing", "no-text"}

Texts == [form : {"full", "upper", "empty"}, class : {7, 8}]
Sets == [good : {{1}, {1, 7}}, fail : {<<1>>, <<7>>, <<1, 7, 8>>, <<8, 7, 8>>}, inf : UNION {[1..n -> Texts] : n \in 0..2}, state : {"ok", "missing"}]
VARIABLES ds, i, j, found, rc, done
vars == <<ds, i, j, found, rc, done>>
Init == ds \in UNION {[1..n -> Sets] : n \in 1..MaxSets} /\ i = 1 /\ j = 0 /\ found = <<>> /\ rc = 0 /\ done = FALSE
Fail == rc' = 1 /\ (IF Variant = "last-result" /\ i < Len(ds) THEN i' = i + 1 /\ done' = FALSE ELSE done' = TRUE /\ UNCHANGED i) /\ j' = 0 /\ UNCHANGED <<ds, found>>
Pass == rc' = 0 /\ (IF i < Len(ds) THEN i' = i + 1 /\ done' = FALSE ELSE done' = TRUE /\ UNCHANGED i) /\ j' = 0 /\ UNCHANGED <<ds, found>>
Load == /\ ~done /\ j = 0
        /\ IF ~Complete(ds[i]) THEN IF Variant = "skip-missing" THEN Pass ELSE Fail
           ELSE j' = 1 /\ found' = Found(ds[i]) /\ UNCHANGED <<ds, i, rc, done>>
Match(e, k) == CASE Variant = "no-text" -> TRUE [] Variant = "any-order" -> \E x \in DOMAIN found : Contains(e, found[x]) [] OTHER -> Contains(e, found[k])
Compare == /\ ~done /\ j > 0 /\ j <= Len(found) /\ j <= Len(ds[i].inf)
           /\ IF Match(ds[i].inf[j], j) THEN j' = j + 1 /\ UNCHANGED <<ds, i, found, rc, done>> ELSE Fail
Count == /\ ~done /\ j > 0 /\ (j > Len(found) \/ j > Len(ds[i].inf))
         /\ IF \/ Len(found) = Len(ds[i].inf) \/ Variant = "zip-only"
               \/ Variant = "at-least" /\ Len(found) >= Len(ds[i].inf)
            THEN Pass ELSE Fail
Next == Load \/ Compare \/ Count
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == done => (rc = 0) = AllPass(ds)
Terminates == <>done
=============================================================================
