-------------------------------- MODULE Store -------------------------------
(* A model (or report) file: saving writes its blocks one after the other    *)
(* and can fail at any of them, the file can be truncated, replaced by       *)
(* something else or removed; loading gives what was saved or fails.         *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Objects, Blocks, MaxOps, Variant
ASSUME Variant \in {"fixed", "legacy-finish", "no-check"}

(* file: none, or the object whose first n blocks are there ("junk" otherwise) *)
VARIABLES file, hist, last
vars == <<file, hist, last>>
None == [obj |-> "none", n |-> 0]
Init == file = None /\ hist = <<>> /\ last = "-"

Log(op, o, k, res) == hist' = Append(hist, [op |-> op, obj |-> o, at |-> k, res |-> res]) /\ last' = res
More == Len(hist) < MaxOps

(* a save which can write only k blocks; all of them when k = Blocks *)
Save(o, k) == /\ More /\ file' = [obj |-> o, n |-> k]
              \* the last block is written by finish: the legacy design ignored its failure
              /\ Log("save", o, k, IF k = Blocks \/ (Variant = "legacy-finish" /\ k = Blocks - 1) THEN "ok" ELSE "error")
Truncate(k) == /\ More /\ file.n > k /\ file' = [file EXCEPT !.n = k] /\ Log("truncate", file.obj, k, "ok")
Junk == /\ More /\ file' = [obj |-> "junk", n |-> Blocks] /\ Log("junk", "junk", 0, "ok")
Remove == /\ More /\ file' = None /\ Log("remove", "none", 0, "ok")

(* what a load of this file gives *)
Loaded(f) == IF f.obj \in Objects /\ (f.n = Blocks \/ Variant = "no-check") THEN f.obj ELSE "error"
Load == /\ More /\ Log("load", "none", 0, Loaded(file)) /\ UNCHANGED file

Next == (\E o \in Objects, k \in 0..Blocks : Save(o, k)) \/ (\E k \in 0..(Blocks - 1) : Truncate(k)) \/ Junk \/ Remove \/ Load
Spec == Init /\ [][Next]_vars

(* a save that is not complete is an error *)
SaveHonest == \A i \in DOMAIN hist : hist[i].op = "save" => (hist[i].res = "ok" <=> hist[i].at = Blocks)
(* a load gives the object of the last save, when nothing happened to the file since *)
LastChange(i) == LET c == {j \in 1..(i - 1) : hist[j].op # "load"} IN
                 IF c = {} THEN 0 ELSE CHOOSE j \in c : \A m \in c : m <= j
LoadHonest == \A i \in DOMAIN hist : hist[i].op = "load" =>
   LET j == LastChange(i) IN
   IF j # 0 /\ hist[j].op = "save" /\ hist[j].at = Blocks THEN hist[i].res = hist[j].obj ELSE hist[i].res = "error"
=============================================================================
