---------------------------- MODULE RemoteTrace -----------------------------
(* The recorded histories of runs: [world, ops], each operation with the     *)
(* requests the server received.  TLC follows them, and writes what each run *)
(* had to show; it stops a history at a run whose requests are not possible. *)
EXTENDS Remote, Json, IOUtils
R == INSTANCE Render WITH Variant <- "fixed"
VARIABLE k
Recs == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}
Size(a) == [no |-> a.no, before |-> Len(a.before), after |-> Len(a.after)]
RECURSIVE Follow(_, _, _)
Follow(r, st, n) ==
  IF n > Len(r.ops) THEN <<>>
  ELSE LET d == Do(r.world, st, r.ops[n], ToSet(r.ops[n].reqs))
           e == d.out
           this == [possible |-> d.possible, must |-> d.must, may |-> d.may, refused |-> d.refused, marks |-> d.marks, totals |-> Totals(e),
                    srcs |-> [i \in DOMAIN e |-> [id |-> e[i].id, status |-> e[i].status, out |-> e[i].out,
                                                  rows |-> R!Rows([m \in DOMAIN e[i].out |-> Size(e[i].out[m])], 1)]]]
       IN <<this>> \o (IF d.possible THEN Follow(r, d.st, n + 1) ELSE <<>>)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN Recs |-> [ops |-> Follow(Recs[i], Empty(Recs[i].world), 1)]])
Init == k = 1
Next == k < Len(Recs) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
