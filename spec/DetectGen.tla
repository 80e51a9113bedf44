----------------------------- MODULE DetectGen ------------------------------
(* The conformance cases of the inspection, at the real constants: lines are *)
(* described by items <<kind, index, count>>                                 *)
(*   k  lines of the baseline with distinct classes index, index+1, ...      *)
(*   s  lines of one baseline class (duplicates)                             *)
(*   e  lines close to a baseline line (distance 0.2)                        *)
(*   a  lines of the novel class index (distance 1)                          *)
(*   A  lines of the distinct novel classes index, index+1, ...              *)
(*   f  lines of a novel class at distance 0.4 of a baseline line            *)
(*   L  lines of a novel class with a long beginning common to all of them   *)
(*   g  as L, in the baseline                                                *)
(*   b  lines of spaces (which are not blank), also in the baseline          *)
(*   x  (in a baseline) the reader fails    y  (in a baseline) not a text    *)
(*   z  blank lines    t  a line that looks like the marker    m  the marker *)
(* A case is a list of sources inspected one after the other with the same   *)
(* index; the expected anomalies are those of Detector.                      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
CONSTANTS Fam, Len1, Len2

I == INSTANCE DetectItems WITH Ctx <- 3

(* the baseline: two files, several chunks, with the marker in the middle *)
Base == <<<<<<"k", 1, 700>>, <<"m", 0, 1>>, <<"t", 0, 1>>, <<"t", 1, 1>>, <<"t", 2, 1>>, <<"t", 3, 1>>, <<"t", 4, 1>>, <<"s", 0, 40>>, <<"w", 1, 6>>>>,
          <<<<"z", 0, 3>>, <<"k", 701, 650>>, <<"s", 0, 1>>, <<"b", 0, 1>>>>>>

CaseEnd(srcs, end, base) ==
  LET sts == I!Sources({}, srcs, 1) IN
  [base |-> base, srcs |-> srcs, end |-> end,
   exp |-> [i \in DOMAIN sts |-> sts[i].out], lines |-> [i \in DOMAIN sts |-> sts[i].i],
   stopped |-> [i \in DOMAIN sts |-> sts[i].stopped]]
Case(srcs) == CaseEnd(srcs, "eof", Base)

K(i, n) == <<"k", i, n>>
S(n) == <<"s", 0, n>>
A(j) == <<"a", j, 1>>
Seqs(alpha, lo, hi) == UNION {[1..n -> alpha] : n \in lo..hi}

(* consecutive k items get consecutive classes *)
RECURSIVE Renumber(_, _)
Renumber(items, next) ==
  IF items = <<>> THEN <<>>
  ELSE IF Head(items)[1] = "k" THEN <<K(next, Head(items)[3])>> \o Renumber(Tail(items), next + Head(items)[3])
       ELSE <<Head(items)>> \o Renumber(Tail(items), next)

Small(x_) == {Case(<<Renumber(x, 690)>>) : x \in Seqs({K(0, 1), A(1), A(2), <<"m", 0, 1>>, <<"z", 0, 2>>}, 0, Len1)}
    \cup {Case(<<Renumber(x, 3)>>) : x \in Seqs({S(2), <<"b", 0, 1>>, <<"e", 2, 1>>, <<"f", 3, 1>>, <<"t", 0, 1>>, A(1), K(0, 3)}, 1, Len1 - 1)}

(* the chunk of 512 unique lines ends around the anomalies *)
Edge(x_) == {Case(<<Renumber(<<K(1, n)>> \o x \o <<K(0, 3)>>, 1)>>) :
            n \in {507, 508, 509, 510, 511, 512}, x \in Seqs({K(0, 1), S(1), A(1), A(2)}, 1, Len2)}
   \cup {Case(<<Renumber(<<A(1), K(1, n), <<"m", 0, 1>>, A(2), K(0, 520), A(3)>>, 1)>>) : n \in {0, 3, 508, 510, 511, 512, 513, 600}}
   \cup {Case(<<Renumber(<<K(1, n), A(1), K(0, m), A(2), K(0, 1)>>, 1)>>) : n \in {400, 509, 511}, m \in {505, 508, 509, 510, 511, 512}}

(* mostly duplicate lines: the buffer is searched after 5120 lines *)
Dup(x_) == {Case(<<<<A(1), S(n)>> \o x \o <<S(4)>>>>) : n \in {5115, 5116, 5117, 5118, 5119, 5120, 5121, 5122},
            x \in {<<A(2)>>, <<A(2), A(1), A(3)>>, <<S(1), A(2), S(2), A(3)>>}}
  \cup {Case(<<<<S(n), A(1), S(m), A(2)>>>>) : n \in {5117, 5120, 10241}, m \in {0, 2, 5, 7}}
  \cup {Case(<<<<A(1), S(1), <<"a", 1, n>>, A(2)>>>>) : n \in {5118, 5119, 5120, 5121}}

(* only duplicates since the last search *)
DupOnly(x_) == {Case(<<Renumber(p \o <<S(n)>> \o x, 1)>>) : p \in {<<K(1, 511)>>, <<A(1), K(1, 510)>>, <<K(1, 510), A(1)>>, <<K(1, 508), A(1), K(1, 2)>>},
                n \in {5120, 5121, 5122, 5123, 5124, 5125, 10243}, x \in {<<A(2), S(2)>>, <<S(1), A(1), A(2), K(1, 1), A(3), S(5)>>}}
   \cup {Case(<<<<A(1), S(3)>>, <<S(n), A(2), S(2)>>, <<A(3), S(n), A(1), A(4)>>>>) : n \in {1, 3, 4, 5119, 5120, 5121, 5122, 5123, 5124, 10242}}

(* many anomalies, and many chunks *)
Many1(x_) == {Case(<<<<<<"A", 1, n>>>>>>) : n \in {1, 511, 512, 513, 700, 2100}}
   \cup {Case(<<<<K(1, 1300), A(1), K(1, 1350), A(2)>>>>), Case(<<<<A(1), K(1, 1023), A(2), K(1024, 2)>>>>)}
   \cup {Case(<<<<K(1, n), A(1)>>, <<A(1), K(1, 3), A(2)>>, <<A(2), A(3), S(1), A(1)>>>>) : n \in {0, 5, 509, 511, 512}}

(* the reader fails, or a line is not text *)
Fail(x_) == {CaseEnd(<<Renumber(<<K(1, n)>> \o x, 1)>>, end, Base) :
            n \in {0, 509, 512}, end \in {"fail", "utf8"}, x \in Seqs({K(0, 1), A(1), A(2)}, 0, 4)}
   \cup {CaseEnd(<<Renumber(<<K(1, n), A(1)>> \o x, 1)>>, end, Base) :
            n \in {0, 2, 511}, end \in {"utf8-cut", "utf8-lone", "utf8-over", "utf8-surrogate", "utf8-high", "utf8-all"}, x \in {<<>>, <<K(0, 2)>>, <<A(2), K(0, 5)>>}}

   \cup {CaseEnd(<<Renumber(<<K(1, n)>> \o x \o <<K(0, m), <<"b", 0, 2>>>>, 1)>>, end, Base) :
            n \in {3, 300, 508}, m \in {3, 205, 209, 211, 600}, end \in {"fail", "utf8"}, x \in {<<A(1)>>, <<A(1), A(2)>>}}

(* the baselines: a line is known wherever it is in them *)
BaseOf(n, m) == <<<<K(1, n)>>, <<K(n + 1, m), <<"w", 1, 3>>>>>>
Bases(x_) == {CaseEnd(<<<<K(1, n + m), A(1), <<"e", 1, 1>>, <<"f", 2, 1>>, K(1, 2), S(1)>>>>, "eof", Append(BaseOf(n, m), <<S(1)>>)) :
            n \in {1, 511, 512, 513, 1024}, m \in {1, 2, 511, 512, 513}}

(* the last chunk of the baselines has any number of lines *)
Split(t) == {1, t \div 2, t} \cap 1..t
Tails(x_) == UNION {{CaseEnd(<<<<K(1, t), A(1), K(1, 1), K(t, 1)>>>>, "eof", <<<<K(1, n)>>, IF n = t THEN <<>> ELSE <<K(n + 1, t - n)>>>>) : n \in Split(t)} :
                  t \in {1, 2, 3, 511, 512, 513, 514, 1023, 1024, 1025, 1026, 1537}}
     \cup {CaseEnd(<<<<K(1, t), S(2), A(1)>>>>, "eof", <<<<S(3), K(1, t), S(40)>>, <<K(1, t), S(1)>>>>) : t \in {1, 510, 511, 512, 1023}}

(* a very long baseline is known up to its end *)
Vast(x_) == {CaseEnd(<<<<K(1, 3), A(1), K(n - 300, 300), S(2), A(2), K(n \div 2, 5)>>>>, "eof", <<<<K(1, n)>>, <<S(1)>>>>) : n \in {21000, 70000}}

(* a baseline that fails half way: what was read before is known, and so are the other files *)
Broken(x_) == {CaseEnd(<<<<K(1, n), A(1), K(n + 1, m), A(2), K(n + m + 1, 2), K(1, 1)>>>>, "eof",
                  <<<<K(1, n), <<e, 0, 1>>, A(1), A(2)>>, <<K(n + 1, m)>>, <<K(n + m + 1, 2), <<f, 0, 1>>, A(2)>>>>) :
                  n \in {1, 2, 300, 511, 512, 513}, m \in {1, 512}, e \in {"x", "y"}, f \in {"x", "y"}}

(* lines with a long common beginning or end, known or not; and very long sources *)
Long(x_) == {CaseEnd(<<<<<<"g", 1, 2>>, <<"L", i, 1>>, K(1, n), <<"L", j, 2>>, <<"g", 2, 1>>, <<"L", 3, 1>>, <<"g", 4, 1>>, <<"g", 3, 1>>, <<"g", 2, 1>>, K(1, 2)>>>>, "eof",
                     <<<<K(1, 600), <<"g", 1, 1>>, <<"g", 2, 1>>>>, <<<<"g", 3, 1>>, <<"g", 4, 1>>, S(1)>>>>) : i \in 1..8, j \in 1..8, n \in {1, 520}}
    \cup {Case(<<<<A(1), S(n), A(2), <<"e", 2, 1>>, S(2), <<"f", 3, 1>>, K(1, 3), <<"e", 4, 2>>, A(1), A(3), S(1)>>, <<S(3), A(3), A(4)>>>>) : n \in {33000, 66000}}

(* the marker, in its several forms and at every place, and what only looks like it *)
M(j) == <<"m", j, 1>>
T(j) == <<"t", j, 1>>
Mark(x_) == {Case(<<<<A(1), K(1, n), M(j), A(2), K(n + 1, m), T(j), A(3)>>, <<A(2), S(1), T(j), A(1), K(700, 3)>>>>) :
                j \in 0..12, n \in {0, 1, 4, 510, 511, 512, 600}, m \in {1, 520}}
       \cup {Case(<<<<K(1, n), A(1), K(n + 1, d), M(j), A(2), K(600, m), A(3), S(2)>>, <<A(2), S(1)>>>>) :
                j \in {0, 5}, n \in 507..513, d \in 0..4, m \in {0, 2, 520}}
       \cup {Case(<<<<S(n), A(1), S(d), M(j), A(2), S(5), A(3), S(5130), A(4)>>>>) : j \in {0, 6}, n \in 5117..5121, d \in 0..4}
       \cup {Case(<<<<K(1, n), T(j), A(1), T((j + 1) % 5), <<"s", 0, 2>>, <<"w", 2, 1>>, A(2)>>>>) : j \in 0..4, n \in {0, 510}}
       \cup {Case(<<<<A(1), S(n), M(0), A(2), S(5200), A(3)>>, <<M(1), A(4)>>, <<A(4), M(2), M(0), A(5)>>>>) : n \in {0, 3, 5118, 5120, 5121}}
       \cup {Case(<<<<A(1), M(j), A(2)>>, <<A(1), A(3), M(j), A(4), K(1, n), A(5)>>, <<M(j), A(6)>>>>) : j \in 0..4, n \in {0, 4, 513}}
       \cup {Case(<<<<A(1), M(j), A(2), M(i), A(3), K(1, 513), A(4)>>>>) : i \in 0..4, j \in 0..4}

Cases == CASE Fam = "small" -> Small(0) [] Fam = "edge" -> Edge(0) [] Fam = "dup" -> Dup(0) \cup Many1(0) \cup DupOnly(0)
           [] Fam = "marker" -> Mark(0) [] Fam = "fail" -> Fail(0) [] Fam = "bases" -> Vast(0) \cup Bases(0) \cup Tails(0) \cup Broken(0)
           [] Fam = "long" -> Long(0)

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
