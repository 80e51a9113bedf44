----------------------------- MODULE DetectTrace ----------------------------
(* Recorded inspections of random sources, checked against Detector.        *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLE k
D == INSTANCE Detector WITH Ctx <- 3
G == INSTANCE DetectItems WITH Ctx <- 3

Recs == ndJsonDeserialize(IOEnv.TRACE)

Init == k = 1
(* a record is accepted when the anomalies of all its sources are the expected ones *)
Expected(r) == LET sts == G!Sources({}, r.srcs, 1) IN [i \in DOMAIN sts |-> sts[i].out]
Next == /\ k <= Len(Recs)
        /\ LET e == Expected(Recs[k]) IN
             IF e = Recs[k].out THEN TRUE ELSE PrintT(<<"REJECT", k, ToJson(e)>>)
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
