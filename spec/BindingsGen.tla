---------------------------- MODULE BindingsGen -----------------------------
(* All the histories of Bindings of a given length that end by a judged call.*)
EXTENDS Bindings, Json, IOUtils
Judged == {"search_vec", "search_mat", "save", "loadcut"}
Dump == IF Len(hist) = MaxOps /\ hist[MaxOps].op \in Judged
        THEN Serialize(ToJson(hist) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        ELSE TRUE
=============================================================================
