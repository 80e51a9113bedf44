----------------------------- MODULE ReportLoop -----------------------------
(* The report loop as implemented: the groups of the target are taken in any *)
(* order, their sources one by one, and the lists of the report are filled.  *)
(* At the end they must account for every source as Report defines.          *)
EXTENDS Report, TLC
CONSTANTS Variant, NSlots
ASSUME Variant \in {"fixed", "legacy-abort", "legacy-drop"}

BaseSets == SUBSET {[group |-> "g1", lines |-> <<1, 2>>], [group |-> "g2", lines |-> <<3>>]} \ {{}}
Contents == {<<1>>, <<1, 9>>, <<9, 8>>}
Files == [group : {"g1", "g2", "g3"}, lines : Contents, end : {"eof", "fail", "open"}]
VARIABLES base, target, todo, queue, seen, logs, noindex, errors, lines, anomalies
vars == <<base, target, todo, queue, seen, logs, noindex, errors, lines, anomalies>>

RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o ToSeq(s \ {x})

Init == /\ base \in {ToSeq(b) : b \in BaseSets}
        /\ target \in {[i \in DOMAIN t |-> [id |-> i, group |-> t[i].group, lines |-> t[i].lines, end |-> t[i].end]] :
                          t \in UNION {[1..n -> Files] : n \in 1..NSlots}}
        /\ todo = Groups(target) /\ queue = <<>> /\ seen = {} /\ logs = {} /\ noindex = {} /\ errors = {} /\ lines = 0 /\ anomalies = 0

OfGroup(g) == SelectSeq(target, LAMBDA t : t.group = g)

TakeGroup == /\ queue = <<>> /\ todo # {}
             /\ \E g \in todo :
                  /\ todo' = todo \ {g} /\ seen' = {}
                  /\ IF Lookup(base, g) = <<>>
                     THEN /\ noindex' = noindex \cup {OfGroup(g)[i].id : i \in DOMAIN OfGroup(g)} /\ queue' = <<>>
                     ELSE /\ queue' = OfGroup(g) /\ UNCHANGED noindex
             /\ UNCHANGED <<base, target, logs, errors, lines, anomalies>>

TakeSource ==
  /\ queue # <<>>
  /\ LET t == Head(queue) IN
     IF t.end = "open"
     THEN /\ errors' = errors \cup {t.id}
          /\ queue' = IF Variant = "legacy-abort" THEN <<>> ELSE Tail(queue)
          /\ UNCHANGED <<seen, logs, lines, anomalies>>
     ELSE LET st == Inspect(D!Start(seen), t.lines, KnownBy(base, Lookup(base, t.group)[1]), 1)
              out == IF Variant = "legacy-drop" /\ t.end = "fail" THEN <<>> ELSE st.out
          IN /\ errors' = IF t.end = "fail" THEN errors \cup {t.id} ELSE errors
             /\ queue' = Tail(queue) /\ seen' = st.seen
             /\ logs' = IF out = <<>> THEN logs ELSE logs \cup {[id |-> t.id, out |-> out, index |-> Lookup(base, t.group)[1]]}
             /\ lines' = lines + st.i /\ anomalies' = anomalies + Len(out)
  /\ UNCHANGED <<base, target, todo, noindex>>

Next == TakeGroup \/ TakeSource
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == queue = <<>> /\ todo = {}

Accounts == Done =>
  LET e == Expected(base, target, TRUE) IN
  /\ noindex = {e[i].id : i \in {i \in DOMAIN e : e[i].status = "noindex"}}
  /\ errors = {e[i].id : i \in {i \in DOMAIN e : e[i].status = "error"}}
  /\ logs = {[id |-> e[i].id, out |-> e[i].out, index |-> e[i].index[1]] : i \in {i \in DOMAIN e : e[i].out # <<>>}}
  /\ lines = Totals(e).lines /\ anomalies = Totals(e).anomalies
(* C11: an index of another name is only used when there is no other *)
GroupOf(i) == target[i].group
Matched == \A l \in logs : (l.index = GroupOf(l.id)) \/ (GroupOf(l.id) \notin Groups(base) /\ Groups(base) = {l.index})
Partition == Accounted(base, target)
Terminates == <>Done
=============================================================================
