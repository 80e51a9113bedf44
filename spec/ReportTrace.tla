---------------------------- MODULE ReportTrace -----------------------------
(* The expected account of recorded runs: the order of the sources is the    *)
(* one that was observed.                                                    *)
EXTENDS Report, Json, IOUtils, TLC
VARIABLE k
Recs == ndJsonDeserialize(IOEnv.TRACE)
Exp(r) == LET e == Expected(r.base, r.target, r.shared) IN [srcs |-> e, totals |-> Totals(e)]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN Recs |-> Exp(Recs[i])])
(* one state per record, so that the coverage is counted *)
Init == k = 1
Next == k < Len(Recs) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
