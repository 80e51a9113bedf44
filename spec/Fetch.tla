-------------------------------- MODULE Fetch -------------------------------
(* Reading urls through the cache: what the consumer gets and which requests *)
(* reach the server, over the life of several processes.  The n-th request   *)
(* is answered by the content number n, so that a stale, missing or mixed    *)
(* entry shows.  The listings are cached whether or not the cache is used.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS NUrls, NDirs, MaxOps
Urls == 1..NUrls
Dirs == 1..NDirs
VARIABLES use, cached, dircached, n, hist
vars == <<use, cached, dircached, n, hist>>
Init == use \in BOOLEAN /\ cached = [u \in Urls |-> 0] /\ dircached = [d \in Dirs |-> 0] /\ n = 0 /\ hist = <<>>
More == Len(hist) < MaxOps
(* res: the content that is read, 0 when it fails; req: the requests so far *)
Log(op, u, how, full, res) == hist' = Append(hist, [op |-> op, u |-> u, how |-> how, full |-> full, next |-> n + 1, res |-> res, req |-> n'])
Hows == {"ok", "404", "500", "cut", "drop"}

Fetch(u, how, full) ==
  /\ More
  /\ IF use /\ cached[u] # 0
     THEN n' = n /\ UNCHANGED cached /\ Log("fetch", u, how, full, cached[u])
     ELSE /\ n' = n + 1
          /\ cached' = IF use /\ how = "ok" /\ full THEN [cached EXCEPT ![u] = n + 1] ELSE cached
          /\ Log("fetch", u, how, full, IF how = "ok" THEN n + 1 ELSE 0)
  /\ UNCHANGED <<use, dircached>>
List(d, how) ==
  /\ More
  /\ IF dircached[d] # 0
     THEN n' = n /\ UNCHANGED dircached /\ Log("list", d, how, TRUE, dircached[d])
     ELSE /\ n' = n + 1
          /\ dircached' = IF how = "ok" THEN [dircached EXCEPT ![d] = n + 1] ELSE dircached
          /\ Log("list", d, how, TRUE, IF how = "ok" THEN n + 1 ELSE 0)
  /\ UNCHANGED <<use, cached>>
Restart == More /\ n' = n /\ Log("restart", 0, "ok", TRUE, 0) /\ UNCHANGED <<use, cached, dircached>>
Next == \/ \E u \in Urls, how \in Hows, full \in BOOLEAN : Fetch(u, how, full)
        \/ \E d \in Dirs, how \in Hows : List(d, how)
        \/ Restart
Spec == Init /\ [][Next]_vars

(* only complete responses are cached, and what was served once complete is served again without a request *)
Sound == \A u \in Urls : cached[u] # 0 =>
   /\ use /\ \E i \in DOMAIN hist : hist[i].op = "fetch" /\ hist[i].u = u /\ hist[i].how = "ok" /\ hist[i].full /\ hist[i].res = cached[u]
Frugal == \A i, j \in DOMAIN hist : (use /\ i < j /\ hist[i].op = "fetch" /\ hist[j].op = "fetch" /\ hist[i].u = hist[j].u
                                     /\ hist[i].how = "ok" /\ hist[i].full) => hist[j].res = hist[i].res
Dump == IF Len(hist) = MaxOps
        THEN Serialize(ToJson([ops |-> hist, use |-> use]) \o "\n", IOEnv.OUT,
                       [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        ELSE TRUE
=============================================================================
