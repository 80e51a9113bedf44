----------------------------- MODULE LineTrace ------------------------------
(* Validation of recorded executions of the line reader.  Each record is an  *)
(* input (runs), the JSON mode, whether the reader failed at its end, and    *)
(* the lines observed.  Each record must be what LineSplit defines.          *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
L == INSTANCE LineSplit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Expected(r) == IF r.fail THEN L!SplitBeforeFailure(r.runs, r.json, 6000) ELSE L!Split(r.runs, r.json, 6000)
Conforms(r) == LET e == Expected(r) IN
  /\ Len(e) = Len(r.out)
  /\ \A i \in DOMAIN e : (IOEnv.WHAT # "numbers" => e[i].txt = r.out[i].txt)
                      /\ (IOEnv.WHAT # "texts" => e[i].no = r.out[i].no)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ IF Conforms(Trace[l + 1]) THEN TRUE ELSE PrintT(<<"REJECT", l + 1, Expected(Trace[l + 1])>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
