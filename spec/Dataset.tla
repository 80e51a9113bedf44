------------------------------ MODULE Dataset -------------------------------
(* The evaluation of datasets: each has baseline lines, target lines and a   *)
(* description, the list of the expected anomalies.                          *)
EXTENDS Naturals, Sequences, FiniteSets

(* the anomalies: the first occurrences of the unknown lines *)
RECURSIVE Anomalies(_, _, _)
Anomalies(fail, known, i) ==
  IF i > Len(fail) THEN <<>>
  ELSE IF fail[i] \in known THEN Anomalies(fail, known, i + 1)
  ELSE <<fail[i]>> \o Anomalies(fail, known \cup {fail[i]}, i + 1)
Found(d) == Anomalies(d.fail, d.good, 1)

(* an expected text: of a class of lines, whole, a word of it, surrounded by spaces; empty, in capitals, with other punctuation or longer than the line *)
Contains(e, a) == \/ e.form = "empty"
                  \/ e.form \in {"full", "word", "padded"} /\ e.class = a
(* the files that are there: a description that can be decoded, .good and .fail *)
Complete(d) == d.state = "ok"
Passes(d) == /\ Complete(d)
             /\ Len(d.inf) = Len(Found(d))
             /\ \A i \in DOMAIN d.inf : Contains(d.inf[i], Found(d)[i])
AllPass(ds) == \A i \in DOMAIN ds : Passes(ds[i])
=============================================================================
