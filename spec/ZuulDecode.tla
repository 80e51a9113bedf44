----------------------------- MODULE ZuulDecode -----------------------------
(* The replies of the api.  A build is an object; the value of each field is *)
(* of a class: good, absent (an optional field), or bad.                     *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
(* field -> the values the driver knows, by class *)
GoodValues == [uuid |-> {"text", "odd", "blank"}, job_name |-> {"text", "odd", "blank"}, result |-> {"text", "blank"}, start_time |-> {"date"}, end_time |-> {"date", "leap"},
               duration |-> {"int", "float", "zero", "minus", "half"}, voting |-> {"true", "false"}, log_url |-> {"url"}, ref_url |-> {"url"},
               artifacts |-> {"none", "some"}, project |-> {"text", "odd", "blank"}, branch |-> {"text", "odd", "blank"}, pipeline |-> {"text", "blank"},
               change |-> {"int", "big", "zero"}, patchset |-> {"text", "blank"}, ref |-> {"text", "blank"}, event_id |-> {"text", "blank"}]
Fields == DOMAIN GoodValues
Optional == {"log_url", "ref_url", "change", "patchset"}
AbsentValues(f) == IF f \in Optional THEN {"null", "missing"} ELSE {}
BadValues(f) == (IF f \in Optional THEN {} ELSE {"null", "missing"}) \cup {"list"} \cup
   CASE f \in {"start_time", "end_time"} -> {"words", "month13", "number", "more", "day", "blank"}
     [] f \in {"log_url", "ref_url"} -> {"words", "number", "blank"}
     [] f = "change" -> {"words", "negative", "fraction"}
     [] f = "duration" -> {"words"}
     [] f = "voting" -> {"words", "number"}
     [] f = "artifacts" -> {"words", "badart"}
     [] OTHER -> {"number"}
(* `list` is no value for these either, but an empty list is one for artifacts *)
Values(f) == GoodValues[f] \cup AbsentValues(f) \cup (BadValues(f) \ (IF f = "artifacts" THEN {"list"} ELSE {}))
Plain == [f \in Fields |-> CASE f \in {"duration", "change"} -> "int" [] f \in {"start_time", "end_time"} -> "date" [] f = "voting" -> "true"
                             [] f \in {"log_url", "ref_url"} -> "url" [] f = "artifacts" -> "some" [] OTHER -> "text"]
Good(b, f) == b[f] \in GoodValues[f] \cup AbsentValues(f)
Decodes(b) == \A f \in Fields : Good(b, f)
(* a build to analyze has its logs, its change and its page *)
Complete(b) == Decodes(b) /\ \A f \in {"log_url", "ref_url", "change"} : b[f] \in GoodValues[f]

Builds1 == {[Plain EXCEPT ![f] = v] : <<f, v>> \in UNION {{<<f, v>> : v \in Values(f)} : f \in Fields}}
Builds2 == {[[Plain EXCEPT ![f] = v] EXCEPT !["change"] = w] : <<f, v>> \in UNION {{<<f, v>> : v \in Values(f)} : f \in Fields}, w \in {"null", "zero", "words"}}
(* elements of a list that are no build at all *)
Junk == {"null", "number", "string", "emptylist", "emptyobject"}
Elem(b) == [kind |-> "build", build |-> b]
JunkElem(j) == [kind |-> j, build |-> Plain]
IsGood(e) == e.kind = "build" /\ Decodes(e.build)
Kept(es) == SelectSeq([i \in DOMAIN es |-> i], LAMBDA i : IsGood(es[i]))
(* the ways a reply can be broken as a whole *)
Breaks == {"none", "cut", "trailing", "html", "empty", "object", "nullbody"}
List(es, br) == [what |-> "list", elems |-> es, break |-> br, kept |-> IF br = "none" THEN Kept(es) ELSE <<>>, ok |-> br = "none"]
One(b, br) == [what |-> "one", elems |-> <<Elem(b)>>, break |-> br, kept |-> <<1>>, ok |-> br = "none" /\ Decodes(b), complete |-> br = "none" /\ Complete(b)]
Cases ==
  {List(<<Elem(Plain), Elem(b), Elem(Plain)>>, "none") : b \in Builds1 \cup Builds2}
  \cup {List(<<JunkElem(j), Elem(Plain), JunkElem(k)>>, "none") : j \in Junk, k \in Junk} \cup {List(<<>>, "none")}
  \cup {List(<<Elem(Plain), Elem(b)>>, br) : b \in {Plain, [Plain EXCEPT !["uuid"] = "null"]}, br \in Breaks \ {"none"}}
  \cup {One(b, "none") : b \in Builds1 \cup Builds2} \cup {One(Plain, br) : br \in Breaks}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][Next]_done
=============================================================================
