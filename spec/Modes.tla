------------------------------- MODULE Modes --------------------------------
(* The sources of an index are read each in its own way: the elements of a   *)
(* json document are lines, whatever the other sources of the index are.     *)
(* A file is [kind, elems]: a document with these elements, in a file that   *)
(* is json (plain or compressed) or not (a rotated one).                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS Variant, Elems, MaxBase

IsJson(f) == f.kind \in {"json", "jsongz"}
LinesAs(f, json) == IF json THEN [i \in DOMAIN f.elems |-> <<f.elems[i]>>] ELSE <<f.elems>>
Lines(f) == LinesAs(f, IsJson(f))
Known(base) == UNION {ToSet(Lines(base[i])) : i \in DOMAIN base}

(* what must be reported on a target: each unknown line, once, in order *)
Expected(base, t) ==
  LET ls == Lines(t) IN SelectSeq([i \in DOMAIN ls |-> i], LAMBDA i : ls[i] \notin Known(base) /\ \A j \in 1..(i - 1) : ls[j] # ls[i])

(* the training, a source at a time *)
VARIABLES base, pos, json, known
vars == <<base, pos, json, known>>
Docs == {<<x, y>> : x, y \in Elems}
Files == [kind : {"json", "jsongz", "rot"}, elems : Docs]
Init == base \in UNION {[1..n -> Files] : n \in 1..MaxBase} /\ pos = 1 /\ json = IsJson(base[1]) /\ known = {}
Train == /\ pos <= Len(base)
         /\ known' = known \cup ToSet(LinesAs(base[pos], IF Variant = "first" THEN json ELSE IsJson(base[pos])))
         /\ pos' = pos + 1 /\ UNCHANGED <<base, json>>
Next == Train
Spec == Init /\ [][Next]_vars
(* a trained line is known, and only these *)
Exact == pos > Len(base) => known = Known(base)

(* ---- the cases: the elements of the documents are numbers ---- *)
F(k, e) == [kind |-> k, elems |-> e]
Doc(a) == [i \in 1..8 |-> a + i]
Odd(a) == [i \in 1..9 |-> IF i \in {3, 5, 7} THEN a + 50 + i ELSE a + i]
Bases == UNION {[1..n -> {F("json", Doc(0)), F("jsongz", Doc(10)), F("rot", Doc(0)), F("rot", Doc(20)), F("json", <<31>>)}] : n \in 1..3}
Targets == {F(k, d) : k \in {"json", "jsongz"}, d \in {Doc(0), Odd(0), Doc(10), Doc(20), Doc(5)}} \cup {F("rot", Doc(0)), F("rot", Doc(20)), F("rot", Odd(20))}
Case(b, t) == [base |-> b, target |-> t, out |-> Expected(b, t)]
Gen == ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(b, t) : b \in Bases, t \in Targets}))
GenInit == base = <<>> /\ pos = 0 /\ json = FALSE /\ known = {}
GenSpec == GenInit /\ [][FALSE]_vars
ASSUME "OUT" \notin DOMAIN IOEnv \/ Gen
=============================================================================
