----------------------------- MODULE TokenNoise -----------------------------
(* The lines that are ignored: one word, or the known noise.  A line is a    *)
(* sequence of words separated by one space.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Fam, Variant
ASSUME Variant \in {"fixed", "loose", "anywhere"}
(* the words, by what the patterns can tell of them *)
Words(f) ==
  CASE f = "http" -> {"GET", "/", "/index.html", "HTTP/1.1", "HTTP/2", "POST", "word", "xGET"}
    [] f = "mirror" -> {"*", "-", "base:", "base", "b4se:", "host.example.com", "host_", "word", "Trying", "other", "mirror.", "mirror"}
    [] f = "tools" -> {"ovs-ofctl", "dump-ports", "dump-flows", "show", "showing", "shows", "iptables", "ebtables", "xtables", "-L", "-List", "-A", "ip6tables", "word"}
    [] f = "chrony" -> {"^+", "^-", "^*", "^?", "+", "ntp.example.com", "ntp", "NTP.example.com", "2", "12x", "word", "s/5bf8>28", "e2b6>33", "xyz>33", "5bf8>x"}
    [] f = "echo" -> {"++", "+", "echo", "value", "mswAxrrS1", "echoes", "'", "word"}
Line(l) == 1..Len(l)
At(l, i, s) == i >= 1 /\ i + Len(s) - 1 <= Len(l) /\ SubSeq(l, i, i + Len(s) - 1) = s
(* a word before is also matched by its end, a word after by its start *)
http == {"GET", "xGET"}
Filtered(l) ==
  \/ Len(l) = 1
  \/ \E i \in Line(l) : i + 2 <= Len(l) /\ l[i] \in http /\ l[i + 1] = "/" /\ l[i + 2] = "HTTP/1.1"
  \/ \E i \in Line(l) : l[i] = "*" /\ i + 1 <= Len(l) /\ l[i + 1] = "base:" /\ (i + 2 = Len(l) /\ l[i + 2] \notin {"b4se:", "base:", "*", "host_"})
  \/ \E i \in Line(l) : At(l, i, <<"Trying", "other", "mirror.">>) \/ (At(l, i, <<"Trying", "other", "mirror">>) /\ i + 2 < Len(l))
  \/ \E i, j \in Line(l) : i + 1 < j /\ l[i] = "ovs-ofctl" /\ l[j] \in {"dump-ports", "dump-flows", "show"} \cup (IF Variant = "loose" THEN {"shows"} ELSE {})
  \/ \E i, j \in Line(l) : i + 1 < j /\ l[i] \in {"iptables", "ebtables"} /\ l[j] = "-L"
  \/ Len(l) >= 3 /\ l[1] \in {"^+", "^-", "^*"} /\ l[2] \in {"ntp.example.com", "s/5bf8>28", "e2b6>33", "xyz>33", "5bf8>x"} \ {"s/5bf8>28"} /\ l[3] \in {"2", "12x", "5bf8>x"}
  \/ Len(l) >= 2 /\ l[1] \in {"s/5bf8>28", "e2b6>33"}
  \/ Variant = "anywhere" /\ \E i \in Line(l) : i < Len(l) /\ l[i] \in {"s/5bf8>28", "e2b6>33"}
  \/ Len(l) = 3 /\ l[1] = "++" /\ l[2] = "echo"
Lines(n) == UNION {[1..k -> Words(Fam)] : k \in 1..n}
(* a line of ordinary words is not ignored; what is ignored contains one of the marks of a noise *)
Marks == {"GET", "xGET", "*", "Trying", "ovs-ofctl", "iptables", "ebtables", "^+", "^-", "^*", "s/5bf8>28", "e2b6>33", "++"}
VARIABLE line, done
Init == line \in Lines(4) /\ done = FALSE
Next == FALSE /\ UNCHANGED <<line, done>>
Spec == Init /\ [][Next]_<<line, done>>
InvKept == Len(line) > 1 /\ Filtered(line) => \E i \in Line(line) : line[i] \in Marks
(* the anchored noise is told by the start of the line: what follows changes nothing *)
InvPrefix == \A x \in Words(Fam) : Len(line) \in 3..4 /\ line[1] \in {"s/5bf8>28", "e2b6>33", "^+"} /\ Filtered(line) => Filtered(Append(line, x))
InvStart == Len(line) = 4 /\ Filtered(line) /\ Fam = "chrony" => line[1] \in Marks
InvWord == Fam = "tools" /\ Len(line) > 1 /\ Filtered(line) => \E i \in Line(line) : line[i] \in {"dump-ports", "dump-flows", "show", "-L"}
GenInit == line = <<>> /\ done = FALSE
GenNext == ~done /\ done' = TRUE /\ line' = line /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[l |-> l, f |-> Filtered(l)] : l \in Lines(4)}))
GenSpec == GenInit /\ [][GenNext]_<<line, done>>
=============================================================================
