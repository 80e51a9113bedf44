-------------------------------- MODULE Live --------------------------------
(* The live output of the command line: the sources are inspected one after  *)
(* the other, and each anomaly is printed as soon as it is known.            *)
EXTENDS Report, TLC
CONSTANTS Variant, NSlots
ASSUME Variant \in {"fixed", "sep-leak", "abort", "drop-tail", "shared"}
R == INSTANCE Render WITH Variant <- "fixed"

(* ------------------------------------------------------------ definition *)
Size(a) == [no |-> a.no, before |-> Len(a.before), after |-> Len(a.after)]
RowsOfSource(out) == R!Rows([i \in DOMAIN out |-> Size(out[i])], 1)
Message(k) == [kind |-> k, no |-> 0, text |-> <<0, "", 0>>]
Shown(e) == CASE e.status = "noindex" -> <<Message("noindex")>>
              [] e.status = "error" -> RowsOfSource(e.out) \o <<Message("error")>>
              [] OTHER -> RowsOfSource(e.out)
Tag(id, rows) == [j \in DOMAIN rows |-> [src |-> IF rows[j].kind = "sep" THEN 0 ELSE id, row |-> rows[j]]]
RECURSIVE Concat(_, _)
Concat(e, i) == IF i > Len(e) THEN <<>> ELSE Tag(e[i].id, Shown(e[i])) \o Concat(e, i + 1)
Output(base, target) == Concat(Expected(base, target, FALSE), 1)

(* -------------------------------------------------------- implementation *)
BaseSets == SUBSET {[group |-> "g1", lines |-> <<1, 2>>], [group |-> "g2", lines |-> <<3>>]} \ {{}}
Contents == {<<1>>, <<1, 9>>, <<9, 1, 1, 1, 1, 1, 1, 1, 8>>, <<1, 9, 1, 8, 1>>}
Files == [group : {"g1", "g3"}, lines : Contents, end : {"eof", "fail", "open"}]
VARIABLES base, target, at, st, j, n, last, seen, out
vars == <<base, target, at, st, j, n, last, seen, out>>
RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o ToSeq(s \ {x})
Idle == [D!Start({}) EXCEPT !.phys = 99999]
Init == /\ base \in {ToSeq(b) : b \in BaseSets}
        /\ target \in {[i \in DOMAIN t |-> [id |-> i, group |-> t[i].group, lines |-> t[i].lines, end |-> t[i].end]] : t \in UNION {[1..k -> Files] : k \in 1..NSlots}}
        /\ at = 1 /\ st = Idle /\ j = 1 /\ n = 0 /\ last = 0 /\ seen = {} /\ out = <<>>
Cur == target[at]
Say(k) == out \o Tag(Cur.id, <<Message(k)>>)
Stop(k) == IF Variant = "abort" /\ k = "error" THEN Len(target) + 1 ELSE at + 1
Begin == /\ at <= Len(target) /\ st = Idle
         /\ IF Lookup(base, Cur.group) = <<>> THEN out' = Say("noindex") /\ at' = at + 1 /\ st' = Idle
            ELSE IF Cur.end = "open" THEN out' = Say("error") /\ at' = Stop("error") /\ st' = Idle
            ELSE st' = D!Start(IF Variant = "shared" THEN seen ELSE {}) /\ UNCHANGED <<out, at>>
         /\ j' = 1 /\ n' = 0 /\ last' = (IF Variant = "sep-leak" THEN last ELSE 0)
         /\ UNCHANGED <<base, target, seen>>
(* the anomalies that are complete and not printed yet *)
Pending == st # Idle /\ n < Len(st.out)
PrintNext == /\ Pending
         /\ LET a == Size(st.out[n + 1])  start == a.no - a.before - 1 IN
            /\ out' = out \o (IF last # 0 /\ last # start THEN Tag(0, <<R!Sep>>) ELSE <<>>) \o Tag(Cur.id, R!RowsOf(a, n + 1))
            /\ last' = a.no + a.after
         /\ n' = n + 1 /\ UNCHANGED <<base, target, at, st, j, seen>>
ReadLine == /\ st # Idle /\ ~Pending /\ j <= Len(Cur.lines)
            /\ st' = D!Line(st, Cur.lines[j], Cur.lines[j] \notin KnownBy(base, Lookup(base, Cur.group)[1]))
            /\ j' = j + 1 /\ UNCHANGED <<base, target, at, n, last, seen, out>>
End == /\ st # Idle /\ ~Pending /\ j = Len(Cur.lines) + 1
       /\ st' = (IF Variant = "drop-tail" /\ Cur.end = "fail" THEN st ELSE D!Finish(st)) /\ j' = j + 1 /\ UNCHANGED <<base, target, at, n, last, seen, out>>
Leave == /\ st # Idle /\ ~Pending /\ j = Len(Cur.lines) + 2
         /\ out' = (IF Cur.end = "fail" THEN Say("error") ELSE out) /\ at' = (IF Cur.end = "fail" THEN Stop("error") ELSE at + 1)
         /\ st' = Idle /\ seen' = st.seen /\ UNCHANGED <<base, target, j, n, last>>
Next == Begin \/ PrintNext \/ ReadLine \/ End \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at > Len(target)
Correct == Done => out = Output(base, target)
(* what is printed is always the start of what will be: nothing is taken back *)
Growing == LET o == Output(base, target) IN Len(out) <= Len(o) /\ out = SubSeq(o, 1, Len(out))
Terminates == <>Done
=============================================================================
