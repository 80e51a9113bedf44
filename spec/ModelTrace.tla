----------------------------- MODULE ModelTrace -----------------------------
(* Histories of the model file, and what each of their steps gives.          *)
EXTENDS ModelFile, SequencesExt, Json, IOUtils, TLC
CONSTANTS Fam
Ops == Commands \cup Events
(* the given histories, or all those of a length *)
Given(x_) == ndJsonDeserialize(IOEnv.TRACE)
Hists(n) == SetToSeq([1..n -> Ops])
RECURSIVE Run(_, _)
Run(ops, w) == IF ops = <<>> THEN <<>>
               ELSE LET r == Do(Head(ops), w) IN <<[ok |-> r.r.ok, shown |-> r.r.shown, file |-> r.w.file.k, written |-> r.w.file # w.file \/ (Head(ops) = "train" /\ r.r.ok)]>> \o Run(Tail(ops), r.w)
Case(ops) == [ops |-> ops, steps |-> Run(ops, Start)]
Cases == IF Fam = 0 THEN [i \in DOMAIN Given(0) |-> Case(Given(0)[i])] ELSE LET h == Hists(Fam) IN [i \in DOMAIN h |-> Case(h[i])]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
