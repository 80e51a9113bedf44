----------------------------- MODULE LiveTrace ------------------------------
(* The expected output of recorded runs.                                     *)
EXTENDS Report, Json, IOUtils, TLC
R == INSTANCE Render WITH Variant <- "fixed"
VARIABLE k
Recs == ndJsonDeserialize(IOEnv.TRACE)
Size(a) == [no |-> a.no, before |-> Len(a.before), after |-> Len(a.after)]
Exp(r) == LET e == Expected(r.base, r.target, r.shared) IN
  [srcs |-> [i \in DOMAIN e |-> [id |-> e[i].id, status |-> e[i].status, out |-> e[i].out, rows |-> R!Rows([m \in DOMAIN e[i].out |-> Size(e[i].out[m])], 1)]], totals |-> Totals(e)]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN Recs |-> Exp(Recs[i])])
Init == k = 1
Next == k < Len(Recs) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
