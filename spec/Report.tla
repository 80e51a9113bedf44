------------------------------- MODULE Report -------------------------------
(* What a report on a target accounts for.                                   *)
(*   base:   the baseline files, [group, lines]  (lines: the classes that    *)
(*           could be read)                                                  *)
(*   target: the target files in the order they are listed,                  *)
(*           [id, group, lines, end] with end in eof (fully read),           *)
(*           fail (a failure after these lines), open (can't be opened)      *)
(* Sources are grouped by name; a group uses the index of its name, or the   *)
(* only one.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Ctx
D == INSTANCE Detector

Groups(files) == {files[i].group : i \in DOMAIN files}

(* the name of the index used by a group, <<>> when there is none *)
Lookup(base, g) ==
  IF g \in Groups(base) THEN <<g>>
  ELSE IF Cardinality(Groups(base)) = 1 THEN <<CHOOSE x \in Groups(base) : TRUE>>
  ELSE <<>>

KnownBy(base, g) == UNION {{base[i].lines[j] : j \in DOMAIN base[i].lines} : i \in {i \in DOMAIN base : base[i].group = g}}

RECURSIVE Inspect(_, _, _, _)
Inspect(st, lines, known, j) ==
  IF j > Len(lines) THEN D!Finish(st)
  ELSE Inspect(D!Line(st, lines[j], lines[j] \notin known), lines, known, j + 1)

(* the inspection of the sources, in order; seen: what was searched, per group *)
RECURSIVE Walk(_, _, _, _, _)
Walk(base, target, i, seen, shared) ==
  IF i > Len(target) THEN <<>>
  ELSE LET t == target[i]
           ix == Lookup(base, t.group)
           none == [id |-> t.id, group |-> t.group, index |-> ix, status |-> "noindex", out |-> <<>>, count |-> 0]
       IN IF ix = <<>> THEN <<none>> \o Walk(base, target, i + 1, seen, shared)
          ELSE IF t.end = "open" THEN <<[none EXCEPT !.status = "error"]>> \o Walk(base, target, i + 1, seen, shared)
          ELSE LET s0 == IF shared THEN seen[t.group] ELSE {}
                   st == Inspect(D!Start(s0), t.lines, KnownBy(base, ix[1]), 1)
               IN <<[none EXCEPT !.status = IF t.end = "fail" THEN "error" ELSE "ok", !.out = st.out, !.count = st.i]>>
                  \o Walk(base, target, i + 1, [seen EXCEPT ![t.group] = st.seen], shared)

(* in a report a line is shown once for the sources of an index (shared);    *)
(* the live output shows it in each source                                   *)
Expected(base, target, shared) == Walk(base, target, 1, [g \in Groups(target) |-> {}], shared)

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Totals(e) == [lines |-> Sum([i \in DOMAIN e |-> e[i].count], Len(e)), anomalies |-> Sum([i \in DOMAIN e |-> Len(e[i].out)], Len(e))]

(* the three cases are disjoint and cover every source *)
Accounted(base, target) ==
  LET e == Expected(base, target, TRUE) IN
  /\ Len(e) = Len(target)
  /\ \A i \in DOMAIN e :
       /\ e[i].status = "noindex" <=> (target[i].group \notin Groups(base) /\ Cardinality(Groups(base)) # 1)
       /\ e[i].status # "noindex" => (e[i].status = "error" <=> target[i].end # "eof")
       /\ e[i].out # <<>> => e[i].index # <<>> /\ target[i].end # "open"
=============================================================================
