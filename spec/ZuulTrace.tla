----------------------------- MODULE ZuulTrace ------------------------------
(* The recorded discoveries of random lists: each one is allowed.            *)
EXTENDS Zuul, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.TRACE)
Good(o) == IF Best(o.builds) = {} THEN o.got = 0 ELSE o.got \in Best(o.builds)
VARIABLE i
TInit == i = 1 /\ list = <<>> /\ tried = {} /\ result = 0
TNext == /\ i <= Len(Obs)
         /\ IF Good(Obs[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, Best(Obs[i].builds)>>)
         /\ i' = i + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<i, vars>>
=============================================================================
