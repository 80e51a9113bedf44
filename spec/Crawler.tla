------------------------------ MODULE Crawler -------------------------------
(* The crawler of index-of pages: a pool of workers, a shared set of visited *)
(* urls, a channel and the iterator that reads it.                           *)
(*                                                                           *)
(* A directory page has links to directories and files.  A link is followed  *)
(* when its path is longer than that of the page, the first time it is seen. *)
(* Every step of a worker on a link is one action, so all the interleavings  *)
(* of the links of different pages, and of the iterator, are explored.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NDirs, NFiles, NWorkers, Variant, Ups   \* Ups: the directories that may be linked from below

Dirs == 1..NDirs                       \* the path length of a directory is its number, 1 is the root
Files == 101..(100 + NFiles)
Workers == 1..NWorkers
Idle == [page |-> 0, phase |-> "idle", todo |-> {}, own |-> {}, half |-> 0]

VARIABLES links, fails,                \* the site: chosen at the start
          visited, queue, work,        \* the crawler
          chan, got, ended, requests   \* the channel, what the iterator returned, whether it ended, the requests of each page
vars == <<links, fails, visited, queue, work, chan, got, ended, requests>>

(* what must be found *)
RECURSIVE Reach(_)
Reach(s) == LET n == s \cup {d \in Dirs : \E p \in s \ fails : d \in links[p] /\ d > p} IN IF n = s THEN s ELSE Reach(n)
Reachable == Reach({1})
WantFiles == {f \in Files : \E p \in Reachable \ fails : f \in links[p]}
WantErrors == Reachable \cap fails

Init == /\ links \in {l \in [Dirs -> SUBSET (Dirs \cup Files)] : \A p \in Dirs : \A d \in l[p] \cap Dirs : d > p \/ d \in Ups}
        /\ fails \in SUBSET Dirs
        /\ visited = {1} /\ queue = <<[page |-> 1, own |-> {1}]>>
        /\ work = [w \in Workers |-> Idle]
        /\ chan = <<>> /\ got = <<>> /\ ended = FALSE /\ requests = [d \in Dirs |-> 0]

Busy == {w \in Workers : work[w].phase # "idle"}
Pending == Busy # {} \/ queue # <<>>

(* a worker takes the first page and requests it *)
Take(w) ==
  /\ work[w].phase = "idle" /\ queue # <<>>
  /\ work' = [work EXCEPT ![w] = [page |-> Head(queue).page, phase |-> "fetch", todo |-> {}, own |-> Head(queue).own, half |-> 0]]
  /\ queue' = Tail(queue)
  /\ requests' = [requests EXCEPT ![Head(queue).page] = @ + 1]
  /\ UNCHANGED <<links, fails, visited, chan, got, ended>>

Respond(w) ==
  /\ work[w].phase = "fetch"
  /\ IF work[w].page \in fails
     THEN /\ chan' = Append(chan, <<"error", work[w].page>>)
          /\ work' = [work EXCEPT ![w] = Idle]
     ELSE /\ work' = [work EXCEPT ![w].phase = "links", ![w].todo = links[work[w].page]]
          /\ UNCHANGED chan
  /\ UNCHANGED <<links, fails, visited, queue, got, ended, requests>>

Seen(w) == IF Variant = "legacy-visited" THEN work[w].own ELSE visited

(* the test of the visited set and the insertion are one step, except in a variant *)
Link(w) ==
  /\ work[w].phase = "links" /\ work[w].half = 0
  /\ \E l \in work[w].todo :
       LET skip == (l \in Dirs /\ l <= work[w].page) \/ l \in Seen(w) IN
       IF skip \/ Variant # "check-then-add"
       THEN /\ visited' = IF skip THEN visited ELSE visited \cup {l}
            /\ work' = [work EXCEPT ![w].todo = @ \ {l}, ![w].own = IF skip THEN @ ELSE @ \cup {l}]
            /\ queue' = IF skip \/ l \notin Dirs THEN queue ELSE Append(queue, [page |-> l, own |-> work[w].own \cup {l}])
            /\ chan' = IF skip \/ l \in Dirs THEN chan ELSE Append(chan, <<"file", l>>)
       ELSE work' = [work EXCEPT ![w].half = l] /\ UNCHANGED <<visited, queue, chan>>
  /\ UNCHANGED <<links, fails, got, ended, requests>>
Add(w) ==
  /\ work[w].half # 0
  /\ LET l == work[w].half IN
       /\ visited' = visited \cup {l}
       /\ work' = [work EXCEPT ![w].todo = @ \ {l}, ![w].half = 0]
       /\ queue' = IF l \in Dirs THEN Append(queue, [page |-> l, own |-> {}]) ELSE queue
       /\ chan' = IF l \in Dirs THEN chan ELSE Append(chan, <<"file", l>>)
  /\ UNCHANGED <<links, fails, got, ended, requests>>

Finish(w) ==
  /\ work[w].phase = "links" /\ work[w].todo = {}
  /\ chan' = Append(chan, <<"done", work[w].page>>)
  /\ work' = [work EXCEPT ![w] = Idle]
  /\ UNCHANGED <<links, fails, visited, queue, got, ended, requests>>

Receive ==
  /\ ~ended /\ chan # <<>>
  /\ chan' = Tail(chan)
  /\ got' = IF Head(chan)[1] = "done" THEN got ELSE Append(got, Head(chan))
  /\ ended' = (Variant = "legacy-end" /\ Head(chan)[1] \in {"done", "error"} /\ Cardinality(Busy) <= 1 /\ queue = <<>>)
  /\ UNCHANGED <<links, fails, visited, queue, work, requests>>

(* the workers own the senders: the channel is closed when there is no task left *)
End ==
  /\ ~ended /\ chan = <<>> /\ ~Pending
  /\ ended' = TRUE
  /\ UNCHANGED <<links, fails, visited, queue, work, chan, got, requests>>

Next == (\E w \in Workers : Take(w) \/ Respond(w) \/ Link(w) \/ Add(w) \/ Finish(w)) \/ Receive \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sent == got \o SelectSeq(chan, LAMBDA m : m[1] # "done")
Once == \A i, j \in DOMAIN Sent : i # j => Sent[i] # Sent[j]
RequestedOnce == \A d \in Dirs : requests[d] <= 1
(* nothing that is not below the root is returned *)
Only == \A i \in DOMAIN Sent : Sent[i][1] = "file" => Sent[i][2] \in WantFiles
Exact == ended => /\ {Sent[i] : i \in DOMAIN Sent} = {<<"file", f>> : f \in WantFiles} \cup {<<"error", p>> : p \in WantErrors}
                  /\ \A d \in Dirs : requests[d] = IF d \in Reachable THEN 1 ELSE 0
Ends == <>ended
Symm == Permutations(Workers)
=============================================================================
