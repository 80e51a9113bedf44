----------------------------- MODULE RemoteRun ------------------------------
(* Runs on remote logs, one step at a time, while the server changes and     *)
(* other runs use the same cache: the logs are asked one after the other,    *)
(* each answer is saved in a pending entry of its run while it is read, and  *)
(* the entry is published at its end.  Runs may be killed anywhere.  What a  *)
(* run shows is compared with the definition.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NFiles, NRuns, Procs, Variant
ASSUME Variant \in {"fixed", "store-early", "store-cut", "ignore-cache", "skip-error", "abort", "one-name", "reuse-pending", "shared-pending", "exists-error"}
F == 1..NFiles
(* a content has two pieces; piece 3 is its end *)
Versions == {"a", "b"}
Answers == {[ver |-> v, cut |-> c] : v \in Versions, c \in {1, 3}} \cup {[ver |-> "error", cut |-> 0]}
Whole(v) == <<v, v, "end">>

VARIABLES srv, cache, runs,  \* the server, the cache, and how many runs began
          pend,              \* the pending entry of each process
          ps,                \* the processes
          wholes             \* what was completely read with the cache, for each log
vars == <<srv, cache, runs, pend, ps, wholes>>
None == <<>>
Blank == [f \in F |-> None]
Off == [cached |-> FALSE, at |-> NFiles + 2, ans |-> None, pos |-> 0, got |-> Blank, asked |-> Blank, cache0 |-> Blank]
Name(f) == IF Variant = "one-name" THEN 1 ELSE f
Slot(p) == IF Variant = "shared-pending" THEN CHOOSE q \in Procs : TRUE ELSE p
Init == /\ srv \in [F -> Answers] /\ cache = Blank /\ runs = 0 /\ pend = [p \in Procs |-> None]
        /\ ps = [p \in Procs |-> Off] /\ wholes = [f \in F |-> {}]
Change == \E f \in F, x \in Answers : srv[f] # x /\ srv' = [srv EXCEPT ![f] = x] /\ UNCHANGED <<cache, runs, pend, ps, wholes>>
Begin(p) == /\ ps[p].at > NFiles /\ runs < NRuns /\ runs' = runs + 1
            /\ \E c \in BOOLEAN : ps' = [ps EXCEPT ![p] = [Off EXCEPT !.cached = c, !.at = 1, !.cache0 = cache]]
            /\ pend' = (IF Variant \in {"reuse-pending", "shared-pending"} THEN pend ELSE [pend EXCEPT ![p] = None])
            /\ UNCHANGED <<srv, cache, wholes>>
Idle(p) == ps[p].at <= NFiles /\ ps[p].ans = None /\ ps[p].asked[ps[p].at] = None
Hit(p) == LET s == ps[p] IN
          /\ Idle(p) /\ s.cached /\ cache[Name(s.at)] # None /\ Variant # "ignore-cache"
          /\ ps' = [ps EXCEPT ![p].got[s.at] = cache[Name(s.at)], ![p].at = @ + 1]
          /\ UNCHANGED <<srv, cache, runs, pend, wholes>>
(* the request is sent; its answer is the one of that time *)
Ask(p) == LET s == ps[p] IN
          /\ Idle(p) /\ (~s.cached \/ cache[Name(s.at)] = None \/ Variant = "ignore-cache")
          /\ ps' = [ps EXCEPT ![p].asked[s.at] = <<srv[s.at]>>]
          /\ UNCHANGED <<srv, cache, runs, pend, wholes>>
(* the answer begins *)
Answer(p) ==
  LET s == ps[p]  f == s.at IN
  /\ f <= NFiles /\ s.ans = None /\ s.asked[f] # None
  /\ LET a == s.asked[f][1]
         refuse == s.cached /\ Variant = "exists-error" /\ cache[Name(f)] # None IN
     IF a.cut = 0 \/ refuse
     THEN /\ ps' = [ps EXCEPT ![p].got[f] = IF Variant = "skip-error" THEN <<"end">> ELSE <<"error">>,
                              ![p].at = IF Variant = "abort" THEN NFiles + 1 ELSE @ + 1]
          /\ UNCHANGED <<pend, cache>>
     ELSE /\ ps' = [ps EXCEPT ![p].ans = <<a>>, ![p].pos = 1]
          /\ pend' = [pend EXCEPT ![Slot(p)] = IF ~s.cached THEN @ ELSE IF Variant = "reuse-pending" /\ @ # None THEN @ ELSE <<"w">>]
          /\ cache' = (IF s.cached /\ Variant = "store-early" THEN [cache EXCEPT ![Name(f)] = <<a.ver>>] ELSE cache)
  /\ UNCHANGED <<srv, runs, wholes>>
Read(p) ==
  LET s == ps[p]  f == s.at  q == Slot(p) IN
  /\ f <= NFiles /\ s.ans # None
  /\ LET a == s.ans[1] IN
     IF s.pos > a.cut
     THEN (* the end of the content, or of the connection *)
          LET whole == a.cut = 3
              keep == s.cached /\ pend[q] # None /\ (whole \/ Variant = "store-cut")
          IN /\ cache' = (IF keep /\ Variant # "store-early" THEN [cache EXCEPT ![Name(f)] = Tail(pend[q])] ELSE cache)
             /\ wholes' = (IF s.cached /\ whole THEN [wholes EXCEPT ![f] = @ \cup {Whole(a.ver)}] ELSE wholes)
             /\ pend' = [pend EXCEPT ![q] = None]
             /\ ps' = [ps EXCEPT ![p].ans = None, ![p].pos = 0, ![p].at = @ + 1, ![p].got[f] = IF whole THEN @ ELSE @ \o <<"error">>]
     ELSE LET piece == Whole(a.ver)[s.pos] IN
          /\ ps' = [ps EXCEPT ![p].got[f] = @ \o <<piece>>, ![p].pos = @ + 1]
          /\ pend' = [pend EXCEPT ![q] = IF @ = None \/ ~s.cached THEN @ ELSE @ \o <<piece>>]
          /\ UNCHANGED <<cache, wholes>>
  /\ UNCHANGED <<srv, runs>>
Kill(p) == /\ ps[p].at <= NFiles /\ ps' = [ps EXCEPT ![p] = Off]
           /\ pend' = (IF Variant = "reuse-pending" THEN pend ELSE [pend EXCEPT ![Slot(p)] = None])
           /\ UNCHANGED <<srv, cache, runs, wholes>>
Next == Change \/ \E p \in Procs : Begin(p) \/ Hit(p) \/ Ask(p) \/ Answer(p) \/ Read(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Begin(p) \/ Hit(p) \/ Ask(p) \/ Answer(p) \/ Read(p))

(* ------------------------------------------------------------ definition *)
Answered(a) == IF a.cut = 0 THEN <<"error">> ELSE IF a.cut = 3 THEN Whole(a.ver) ELSE SubSeq(Whole(a.ver), 1, a.cut) \o <<"error">>
Done(p) == ps[p].at = NFiles + 1
(* what was complete before the run is not asked again; what was not asked is a content that was completely read, the one of *)
(* before the run if there was one and the run is alone; the rest is what the server answered *)
Exact == \A p \in Procs : Done(p) =>
  LET s == ps[p] IN
  \A f \in F : IF s.asked[f] = None
               THEN s.cached /\ s.got[f] \in wholes[f] /\ (Cardinality(Procs) = 1 => s.got[f] = s.cache0[f])
               ELSE (s.cached => s.cache0[f] = None) /\ s.got[f] = Answered(s.asked[f][1])
(* the cache holds what was completely read with it, and nothing else *)
Complete == \A f \in F : IF wholes[f] = {} THEN cache[f] = None ELSE cache[f] \in wholes[f]
Ends == <>(runs = NRuns /\ \A p \in Procs : ps[p].at > NFiles)
=============================================================================
