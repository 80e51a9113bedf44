----------------------------- MODULE ModelLife ------------------------------
(* The commands as implemented, step by step: read the target, then load or  *)
(* train, then save when there is no file, then inspect.  While a command    *)
(* runs, the files may change.  The guarantees on the model file.            *)
EXTENDS ModelFile, TLC
CONSTANTS Variant, Depth
ASSUME Variant \in {"fixed", "overwrite", "retrain", "save-always", "no-save", "junk-retrain", "save-first"}

VARIABLES w, cmd, step, model, n, res, before, wrote
vars == <<w, cmd, step, model, n, res, before, wrote>>
Init == w = Start /\ cmd = "" /\ step = "" /\ model = 0 /\ n = 0 /\ res = Silent /\ before = w /\ wrote = FALSE
HasFile == w.file # None

Begin(c) == /\ cmd = "" /\ n < Depth /\ n' = n + 1
            /\ cmd' = c /\ step' = "target" /\ model' = 0 /\ before' = w /\ wrote' = FALSE /\ UNCHANGED <<w, res>>
Event(e) == cmd = "" /\ n < Depth /\ n' = n + 1 /\ w' = Do(e, w).w /\ UNCHANGED <<cmd, step, model, res, before, wrote>>
End(r) == cmd' = "" /\ step' = "ended" /\ res' = r /\ UNCHANGED <<model, n, before>>
Uses == cmd \in {"train", "diff", "path"}
Base == IF cmd \in {"train", "diff", "plain-diff"} THEN w.base ELSE w.old
Step ==
  \/ /\ step = "target" /\ cmd # ""
     /\ IF cmd # "train" /\ w.target = 0 THEN End(Refused) /\ UNCHANGED <<w, wrote>>
        ELSE IF Variant = "save-first" /\ Uses THEN step' = "model" /\ w' = [w EXCEPT !.file = IF HasFile THEN @ ELSE Junk] /\ wrote' = ~HasFile /\ UNCHANGED <<cmd, model, n, res, before>>
        ELSE step' = "model" /\ UNCHANGED <<w, cmd, model, n, res, before, wrote>>
  \/ /\ step = "model"
     /\ LET exists == IF Variant = "save-first" THEN before.file # None ELSE HasFile IN
        IF cmd \in {"diff", "path"} /\ exists /\ ~(Variant = "retrain" /\ Base # 0) /\ ~(Variant = "junk-retrain" /\ w.file = Junk) /\ ~(Variant = "overwrite" /\ cmd = "diff")
        THEN IF cmd = "diff" THEN End(Refused) /\ UNCHANGED <<w, wrote>>
             ELSE IF w.file = Junk THEN End(Refused) /\ UNCHANGED <<w, wrote>>
             ELSE step' = "save" /\ model' = w.file.v /\ UNCHANGED <<w, cmd, n, res, before, wrote>>
        ELSE IF Base = 0 THEN End(Refused) /\ UNCHANGED <<w, wrote>>
        ELSE step' = "save" /\ model' = Base /\ UNCHANGED <<w, cmd, n, res, before, wrote>>
  \/ /\ step = "save"
     /\ LET do == Uses /\ (cmd = "train" \/ ~HasFile \/ Variant \in {"overwrite", "save-always", "junk-retrain", "save-first"}) /\ Variant # "no-save" IN
        w' = (IF do THEN [w EXCEPT !.file = Of(model)] ELSE w) /\ wrote' = (wrote \/ do)
     /\ IF cmd = "train" THEN End(Silent) ELSE step' = "show" /\ UNCHANGED <<cmd, model, n, res, before>>
  \/ /\ step = "show" /\ End(Shows(w, model)) /\ UNCHANGED <<w, wrote>>
Next == (\E c \in Commands : Begin(c)) \/ (\E e \in Events : Event(e)) \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* each command gives what ModelFile defines *)
Ended == cmd = "" /\ step = "ended"
Correct == [][(cmd # "" /\ cmd' = "") => w' = Do(cmd, before).w /\ res' = Do(cmd, before).r]_vars
(* an existing file is only written by the train command, and not at all when it is refused *)
NoSilentWrite == (wrote /\ cmd # "train" /\ cmd # "") => before.file = None
NeverReplaced == [][(w'.file # w.file /\ w.file # None /\ cmd # "") => cmd = "train"]_vars
=============================================================================
