------------------------------ MODULE CacheGen ------------------------------
(* The histories of Cache, with what must be observed at the end.            *)
EXTENDS Cache, SequencesExt, Json, IOUtils
Final == [keys |-> [k \in Keys |-> IF good[k].opt THEN 100 + good[k].c ELSE good[k].c], dirs |-> dirgood, heads |-> heads]
Dump == IF Len(hist) = MaxOps
        THEN Serialize(ToJson([ops |-> hist, final |-> Final]) \o "\n", IOEnv.OUT,
                       [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        ELSE TRUE
=============================================================================
