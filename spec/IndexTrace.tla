----------------------------- MODULE IndexTrace -----------------------------
(* Recorded searches: the observed distances (scaled by 1000, rounded) are   *)
(* those of the definition, give or take Slack.                              *)
EXTENDS IndexDist, Json, IOUtils, TLC
VARIABLE k
Slack == 2
Recs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(l) == IF l = <<>> THEN {0} ELSE {l[i] : i \in DOMAIN l}
Near(a, b) == a <= b + Slack /\ b <= a + Slack
Accept(r) == LET base == {SetOf(r.base[j]) : j \in DOMAIN r.base} IN
   \A i \in DOMAIN r.targets : Near(r.obs[i], Distance(SetOf(r.targets[i]), base))
Init == k = 1
Next == /\ k <= Len(Recs)
        /\ IF Accept(Recs[k]) THEN TRUE ELSE PrintT(<<"REJECT", k>>)
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
