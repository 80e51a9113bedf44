------------------------------ MODULE TokenGen ------------------------------
EXTENDS Tokens, Json, IOUtils, SequencesExt
CONSTANT Fam
Kinds == {<<"word", 5>>, <<"word", 11>>, <<"idkey", 6>>, <<"small", 2>>, <<"err", 5>>, <<"date", 6>>, <<"num", 1>>, <<"num", 4>>, <<"hex", 8>>, <<"wnum", 6>>}
Short == {<<"word", 5>>, <<"idkey", 6>>, <<"small", 2>>, <<"err", 5>>, <<"num", 2>>}
Seps == {"=", ":", "/", "-", "|", "(", "[", "@", ".", "_"}
Others == {"!", "?", "#", "+", "~", "&", "^", "`"}      \* no rule talks about them
A(k, i) == Atom(k[1], k[2], i)
W2(K) == {<<A(a, 1), Sep(s), A(b, 2)>> : a \in K, b \in K, s \in Seps}
With(K) == {<<A(a, 1), Sep(s), A(b, 2)>> : a \in K, b \in K, s \in Others} \cup {<<A(a, 1), Sep(s)>> : a \in K, s \in Others \cup Seps}
   \cup {<<Sep(s), A(a, 1)>> : a \in K, s \in Others} \cup {<<A(a, 1), Sep(s), Sep(s), A(b, 2), Sep(t)>> : a \in Short, b \in Short, s \in Others, t \in {"!", "?", ".", ")", ","}}
W3(K, S) == {<<A(a, 1), Sep(s), A(b, 2), Sep(t), A(c, 3)>> : a \in K, b \in K, c \in K, s \in S, t \in S}
(* long chains of the same separators *)
Chain(n, a, s, t) == [j \in 1..(2 * n - 1) |-> IF j % 2 = 1 THEN A(a, (j + 1) \div 2) ELSE Sep(IF j % 4 = 2 THEN s ELSE t)]
Chains == {Chain(n, a, s, t) : n \in 2..7, a \in {<<"word", 4>>, <<"word", 5>>, <<"word", 7>>, <<"word", 11>>, <<"word", 12>>, <<"num", 3>>, <<"wnum", 7>>}, s \in Seps, t \in Seps}
Singles == {<<A(k, 1)>> : k \in Kinds} \cup {<<Atom("word", n, 1)>> : n \in 4..66} \cup {<<Atom("wnum", n, 1)>> : n \in 5..40} \cup {<<Atom("num", n, 1)>> : n \in 1..70}
Pids == {<<A(a, 1), Sep("["), Atom("num", n, 2), Sep("]")>> : a \in {<<"word", 5>>, <<"word", 11>>, <<"err", 5>>, <<"wnum", 6>>}, n \in 1..6}
   \cup {<<A(a, 1), Sep("["), Atom("num", n, 2), Sep("]"), Sep(":")>> : a \in {<<"word", 5>>, <<"word", 11>>, <<"wnum", 6>>}, n \in 1..6}
(* something after a closing bracket, and a separator at the end of a chain *)
Closers == {<<A(a, 1), Sep(p[1]), A(b, 2), Sep(p[2]), A(c, 3)>> : a \in Short, b \in Short, c \in Short, p \in {<<"[", "]">>, <<"(", ")">>}}
   \cup {<<A(a, 1), Sep(p[1]), A(b, 2), Sep(p[2]), Sep(s), A(c, 3)>> : a \in Short, b \in Short, c \in Short, p \in {<<"[", "]">>, <<"(", ")">>}, s \in Seps}
   \cup {Chain(n, a, s, t) \o <<Sep(z)>> : n \in 2..3, a \in {<<"word", 4>>, <<"word", 7>>, <<"idkey", 6>>}, s \in Seps, t \in Seps, z \in {"-", "/", ":", ".", "|", "_"}}
Words == CASE Fam = "closers" -> Closers
           [] Fam = "short" -> Singles \cup Pids \cup W2(Kinds) \cup With(Kinds)
           [] Fam = "three" -> W3(Kinds, Seps)
           [] Fam = "threeshort" -> W3(Short, Seps)
           [] Fam = "chains" -> Chains
Case(w) == LET d == TLCEval(Do(w).out) IN
  [w |-> w, kept |-> InToks(d) \ {0}, out |-> ToString(d),
   err |-> {i \in {w[j].i : j \in {m \in DOMAIN w : w[m].k = "err"}} : Cardinality({j \in DOMAIN d : d[j] = ErrTok(i)}) = 5}]
VARIABLE word, done
Init == word \in Words /\ done = FALSE
Next == FALSE /\ UNCHANGED <<word, done>>
Spec == Init /\ [][Next]_<<word, done>>
InvKeeps == KeepsWords(word)
InvVolatile == Volatile(word)
GenInit == word = <<>> /\ done = FALSE
GenNext == ~done /\ done' = TRUE /\ word' = word /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(w) : w \in Words}))
GenSpec == GenInit /\ [][GenNext]_<<word, done>>
=============================================================================
