------------------------------ MODULE StoreGen ------------------------------
(* All the histories of Store of a given length, ending by a load.           *)
EXTENDS Store, SequencesExt, Json, IOUtils
Hists == {hist}
(* the complete histories are printed by an action constraint *)
Dump == IF Len(hist) = MaxOps /\ hist[MaxOps].op = "load"
        THEN Serialize(ToJson(hist) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        ELSE TRUE
=============================================================================
