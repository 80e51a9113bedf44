------------------------------ MODULE LineBig -------------------------------
(* Large inputs: a pattern that ends with a newline, repeated, is split like *)
(* each of its copies (the splitter is back in its initial state at the end  *)
(* of the pattern), which gives the first line, the last line, the number of *)
(* lines and of bytes without expanding the input.                           *)
EXTENDS Naturals, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANTS Scale
L == INSTANCE LineSplit
X(k) == <<"x", k>>
NL(k) == <<"N", k>>
Patterns == <<
  [p |-> <<NL(1)>>, t |-> 1000 * Scale],
  [p |-> <<NL(200)>>, t |-> 20 * Scale],
  [p |-> <<X(3), NL(1), <<"b", 1>>, <<"n", 1>>, NL(2)>>, t |-> 100 * Scale],
  [p |-> <<X(6001), NL(1)>>, t |-> 4 * Scale],
  [p |-> <<X(6000), NL(1)>>, t |-> 4 * Scale],
  [p |-> <<X(9000), NL(1), <<"y", 2>>, NL(1)>>, t |-> 3 * Scale],
  [p |-> <<X(8191), NL(1)>>, t |-> 3 * Scale],
  [p |-> <<X(8192), NL(1)>>, t |-> 3 * Scale],
  [p |-> <<X(1), <<"b", 1>>, <<"n", 1>>, <<"b", 1>>, <<"n", 1>>, NL(1)>>, t |-> 200 * Scale],
  [p |-> <<X(30000), NL(1)>>, t |-> Scale],
  [p |-> <<<<"b", 1>>, NL(1)>>, t |-> 400 * Scale],
  [p |-> <<<<"c", 7>>, <<"u", 3>>, <<"v", 3>>, NL(1)>>, t |-> 100 * Scale]
>>
RECURSIVE Sum(_)
Sum(o) == IF o = <<>> THEN 0 ELSE L!Size(Head(o).txt) + Sum(Tail(o))
Case(p, json, read) ==
  LET st == L!Feed(L!Start, p.p, 1, json, 6000)
      n == Len(st.out)
  IN [pattern |-> p.p, times |-> p.t, json |-> json, read |-> read,
      back |-> st.len = 0 /\ ~st.esc /\ ~st.str,
      count |-> n * p.t, bytes |-> Sum(st.out) * p.t,
      first |-> IF n = 0 THEN <<>> ELSE <<st.out[1]>>,
      last |-> IF n = 0 THEN <<>> ELSE <<[st.out[n] EXCEPT !.no = @ + (p.t - 1) * st.phys]>>,
      tail_from |-> st.phys * (p.t - 1)]
Cases == {Case(Patterns[i], j, r) : i \in DOMAIN Patterns, j \in {TRUE, FALSE}, r \in {8192, 1000}}
ASSUME \A c \in Cases : c.back
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
