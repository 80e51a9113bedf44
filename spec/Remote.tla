------------------------------- MODULE Remote -------------------------------
(* A report on remote logs: what a run asks from the server, what it shows,  *)
(* and what it leaves in the cache.  A run is either on a directory, with    *)
(* local baselines or another directory, or on the page of a build, whose    *)
(* baseline is discovered.                                                   *)
(*                                                                           *)
(* w:  base    the baselines [id, group, lines]                              *)
(*     target  the logs [id, group, lines: one sequence per version]         *)
(* op: cached  whether the content is cached                                 *)
(*     kind    "dir", "both" (the baseline is remote too), "build", or       *)
(*             "file": the first log alone, whose name is its url            *)
(*     srv     what the server answers: root, sub, broot (the listings) and  *)
(*             api, builds in ok, bad, junk; head in ok, no, cut;            *)
(*             files: for each log, [ver, how]: ver 0 is absent, 1 and 2 two *)
(*             contents, 3 is the first one with bad bytes in the middle and *)
(*             4 with the marker in the middle; how is ok, bad (an error) or *)
(*             cut or early (the connection ends in the middle, or before    *)
(*             the content);                                                 *)
(*             base: for each baseline, its how                              *)
(* st: what is cached; a content that need not be read until its end may or  *)
(*     may not be there                                                      *)
(* The requests of the run are an input: the definition tells whether they   *)
(* are possible, and what the run shows then.                                *)
EXTENDS Report, TLC

Empty(w) == [api |-> FALSE, builds |-> FALSE, head |-> "none", blist |-> FALSE, base |-> [i \in DOMAIN w.base |-> FALSE],
             list |-> <<>>, file |-> [i \in DOMAIN w.target |-> [sure |-> 0, maybe |-> 0]]]

TReq(i) == "t" \o ToString(i)
BReq(i) == "b" \o ToString(i)
DirOf(g) == CASE g = "g1" -> "alpha" [] g = "g2" -> "beta" [] g = "g3" -> "gamma"

Half(s) == SubSeq(s, 1, Len(s) \div 2)
(* what is read from a complete content *)
Content(t, ver) ==
  CASE ver = 1 -> [lines |-> t.lines[1], end |-> "eof"]
    [] ver = 2 -> [lines |-> t.lines[2], end |-> "eof"]
    [] ver = 3 -> [lines |-> Half(t.lines[1]), end |-> "fail"]
    [] ver = 4 -> [lines |-> Half(t.lines[1]), end |-> "eof"]
(* what is read from the server *)
Fetched(t, a) ==
  IF a.ver = 0 \/ a.how = "bad" THEN [lines |-> <<>>, end |-> "open"]
  ELSE IF a.how = "cut" THEN [lines |-> Half(Content(t, a.ver).lines), end |-> "fail"]
  ELSE IF a.how = "early" THEN [lines |-> <<>>, end |-> "fail"]
  ELSE Content(t, a.ver)

Start(st) == [st |-> st, must |-> {}, may |-> {}, dead |-> FALSE, odd |-> FALSE]
Ask(a, req) == [a EXCEPT !.must = @ \cup req]

(* a reply of the api is cached when it could be decoded *)
Api(a, op, f, req) ==
  IF a.dead \/ (op.cached /\ a.st[f]) THEN a
  ELSE [Ask(a, {req}) EXCEPT !.dead = op.srv[f] # "ok", !.st[f] = @ \/ (op.cached /\ op.srv[f] = "ok")]
(* the availability of the logs is cached both ways, once the server told it *)
Available(a, op) ==
  IF a.dead THEN a
  ELSE IF op.cached /\ a.st.head # "none" THEN [a EXCEPT !.dead = a.st.head = "no"]
  ELSE [Ask(a, {"head"}) EXCEPT !.dead = op.srv.head # "ok", !.st.head = IF op.cached /\ op.srv.head # "cut" THEN op.srv.head ELSE @]
(* a complete listing is always cached *)
BaseList(a, w, op) ==
  IF a.dead \/ a.st.blist THEN a
  ELSE IF op.srv.broot # "ok" THEN [Ask(a, {"bD"}) EXCEPT !.dead = TRUE]
  ELSE [Ask(a, {"bD"} \cup {"bD/" \o DirOf(w.base[i].group) : i \in DOMAIN w.base}) EXCEPT !.st.blist = TRUE]
(* a baseline that can't be opened ends the run; the others may have been read before it *)
BaseFiles(a, w, op, R) ==
  IF a.dead THEN a
  ELSE LET need == {i \in DOMAIN w.base : ~(op.cached /\ a.st.base[i])}
           bad == {i \in need : op.srv.base[i] = "bad"}
           req == {BReq(w.base[i].id) : i \in need}
           b == [a EXCEPT !.st.base = [i \in DOMAIN w.base |-> @[i] \/ (op.cached /\ BReq(w.base[i].id) \in R /\ op.srv.base[i] = "ok")]]
       IN IF bad = {} THEN Ask(b, req)
          ELSE [b EXCEPT !.may = @ \cup req, !.dead = TRUE, !.odd = \A i \in bad : BReq(w.base[i].id) \notin R]
BaseRead(w, op, st) ==
  [i \in DOMAIN w.base |-> [group |-> w.base[i].group,
     lines |-> IF op.kind \in {"dir", "file"} \/ op.srv.base[i] = "ok" \/ (op.cached /\ st.base[i]) THEN w.base[i].lines
               ELSE IF op.srv.base[i] = "cut" THEN Half(w.base[i].lines) ELSE <<>>]]
Present(op) == {i \in DOMAIN op.srv.files : op.srv.files[i].ver # 0}
(* there is also a directory with files that are not logs, named zuul-info *)
List(a, w, op) ==
  IF a.dead THEN a
  ELSE LET all == {"tD", "tD/zuul-info"} \cup {"tD/" \o DirOf(w.target[i].group) : i \in Present(op)}
           now == IF a.st.list # <<>> THEN a
                  ELSE IF op.srv.root # "ok" THEN [Ask(a, {"tD"}) EXCEPT !.dead = TRUE]
                  ELSE IF op.srv.sub # "ok" THEN [Ask(a, all) EXCEPT !.dead = TRUE]
                  ELSE [Ask(a, all) EXCEPT !.st.list = <<Present(op)>>]
       IN [now EXCEPT !.dead = @ \/ now.st.list = <<{}>>]
Files(a, w, op, R, base, listed) ==
  IF a.dead THEN a
  ELSE LET used == {i \in listed : Lookup(base, w.target[i].group) # <<>>}
           sure == {i \in used : op.cached /\ a.st.file[i].sure # 0}
           maybe == {i \in used \ sure : op.cached /\ a.st.file[i].maybe # 0}
           After(i) ==
             LET x == a.st.file[i]  s == op.srv.files[i] IN
             IF i \notin used \/ ~op.cached \/ i \in sure THEN x
             ELSE IF TReq(w.target[i].id) \notin R THEN [sure |-> x.maybe, maybe |-> 0]
             ELSE IF s.ver = 0 \/ s.how # "ok" THEN [sure |-> 0, maybe |-> 0]
             ELSE IF s.ver \in {1, 2} THEN [sure |-> s.ver, maybe |-> 0]
             ELSE [sure |-> 0, maybe |-> s.ver]
       IN [Ask(a, {TReq(w.target[i].id) : i \in used \ (sure \cup maybe)}) EXCEPT
             !.may = @ \cup {TReq(w.target[i].id) : i \in maybe},
             !.st.file = [i \in DOMAIN w.target |-> After(i)]]
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o SortedSeq(s \ {x})
(* a log as it is read in the run *)
Seen(w, op, R, st0, i, base) ==
  LET t == w.target[i]
      known == IF st0.file[i].sure # 0 THEN st0.file[i].sure ELSE st0.file[i].maybe
      fetched == TReq(t.id) \in R \/ Lookup(base, t.group) = <<>> \/ known = 0
      c == IF fetched THEN Fetched(t, op.srv.files[i]) ELSE Content(t, known)
  IN [log |-> [id |-> t.id, group |-> t.group, lines |-> c.lines, end |-> c.end],
      mark |-> Lookup(base, t.group) # <<>> /\ c.end = "eof" /\ (IF fetched THEN op.srv.files[i].ver ELSE known) = 4]

Do(w, st0, op, R) ==
  LET a0 == IF op.kind = "build" THEN Available(Api(Api(Start(st0), op, "api", "api"), op, "builds", "builds"), op) ELSE Start(st0)
      a1 == IF op.kind \in {"dir", "file"} THEN a0 ELSE BaseFiles(BaseList(a0, w, op), w, op, R)
      base == BaseRead(w, op, st0)
      a2 == IF op.kind = "file" THEN a1 ELSE List(a1, w, op)
      listed == IF a2.dead THEN {} ELSE IF op.kind = "file" THEN {1} ELSE a2.st.list[1]
      a3 == Files(a2, w, op, R, base, listed)
      ids == SortedSeq(IF a3.dead THEN {} ELSE listed)
      seen == [n \in DOMAIN ids |-> Seen(w, op, R, st0, ids[n], base)]
      target == [n \in DOMAIN ids |-> seen[n].log]
  IN [st |-> a3.st, must |-> a3.must, may |-> a3.may, possible |-> a3.must \subseteq R /\ R \subseteq a3.must \cup a3.may /\ ~a3.odd,
      marks |-> Cardinality({n \in DOMAIN ids : seen[n].mark}),
      refused |-> a3.dead, base |-> base, target |-> target,
      out |-> IF a3.dead THEN <<>> ELSE Expected(base, target, FALSE)]
=============================================================================
