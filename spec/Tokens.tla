------------------------------- MODULE Tokens -------------------------------
(* The tokenizer, on words made of atoms and separators.                     *)
(* An atom is a run of characters of a kind, with a length:                  *)
(*   word   letters that are neither hexadecimal digits, an error, a date    *)
(*          nor the start of a volatile field                                *)
(*   idkey  such a word containing id, key, ref, region, token, secret or    *)
(*          password                                                         *)
(*   small  the same with 1 to 3 letters                                     *)
(*   err    an error word       date  a day or a month                       *)
(*   num    digits              hex   hexadecimal digits, a digit first      *)
(*   wnum   letters then digits                                              *)
(*   hexl   hexadecimal digits, a letter first                               *)
(*   T      the letter of a timestamp                                        *)
(* and the volatile fields that are known by how they start (cookie, url,    *)
(* ref, hashp, tmpname), or by something they contain (tmp, odd), and b64, letters,   *)
(* digits and +, and b64p, the same with two = at the end.                   *)
(* The rules are applied in their order, the first one that matches decides. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Variant
ASSUME Variant \in {"fixed", "dash-first", "drop-left", "drop-key", "small-4", "big-24", "uid-digits"}

Atom(k, n, i) == [sep |-> "", k |-> k, n |-> n, i |-> i]
Sep(c) == [sep |-> c, k |-> "", n |-> 1, i |-> 0]
IsSep(x, S) == x.sep \in S
RECURSIVE Length(_)
Length(w) == IF w = <<>> THEN 0 ELSE Head(w).n + Length(Tail(w))
Text(w) == \A j \in DOMAIN w : w[j].sep = ""

(* quotes and punctuation around a word *)
Punct == {"(", "[", ")", "]", "{", "}", "<", ">", ",", ";", "'", "\""}
Odd == {"<", ">", "{", "}", ","}
RECURSIVE Trim(_)
Trim(w) == IF w # <<>> /\ IsSep(w[1], Punct) THEN Trim(Tail(w))
           ELSE IF w # <<>> /\ IsSep(w[Len(w)], Punct) THEN Trim(SubSeq(w, 1, Len(w) - 1)) ELSE w
RECURSIVE TrimEnd(_)
TrimEnd(w) == IF w # <<>> /\ IsSep(w[Len(w)], {")", "]"}) THEN TrimEnd(SubSeq(w, 1, Len(w) - 1)) ELSE w

Hexa(a) == a.k \in IF Variant = "uid-digits" THEN {"num"} ELSE {"num", "hex", "hexl", "Z"}
(* dates, addresses, identifiers: hexadecimal groups *)
IsUid(w) == /\ w # <<>> /\ \A j \in DOMAIN w : Hexa(w[j]) \/ IsSep(w[j], {":", ".", "-", "[", "]"})
            /\ (Hexa(w[1]) \/ IsSep(w[1], {":", "[", "]"})) /\ \E j \in DOMAIN w : Hexa(w[j])
            \* a dot or a dash follows something
            /\ \A j \in DOMAIN w : IsSep(w[j], {".", "-"}) => j > 1
(* the longest run of characters of a hash *)
RECURSIVE Run(_, _)
Run(w, cur) == IF w = <<>> THEN cur
               ELSE IF Head(w).sep \in {"", "_", "/", "-", "+"} /\ Head(w).k # "odd" THEN Run(Tail(w), cur + Head(w).n)
               ELSE LET r == Run(Tail(w), 0) IN IF cur >= r THEN cur ELSE r
Starts(w, k) == w # <<>> /\ w[1].k = k
Has(w, k) == \E j \in DOMAIN w : w[j].k = k
IsHash(w) == Starts(w, "hashp") \/ Run(w, 0) >= 64
IsOdd(w) == Has(w, "odd") \/ \E j \in DOMAIN w : IsSep(w[j], Odd)
IsPath(w) == Has(w, "tmp") \/ Starts(w, "tmpname")
IsBase64(w) == (w # <<>> /\ w[Len(w)].k = "b64p")
               \/ (Length(w) > 24 /\ \A j \in DOMAIN w : w[j].sep \in {"", "/", "=", "+"} /\ w[j].k \notin {"cookie", "url", "odd", "hashp"})
One(w, k) == Len(w) = 1 /\ w[1].k = k

First(w, S) == LET f == {j \in DOMAIN w : IsSep(w[j], S)} IN IF f = {} THEN 0 ELSE CHOOSE j \in f : \A m \in f : j <= m
Left(w, j) == SubSeq(w, 1, j - 1)
Right(w, j) == SubSeq(w, j + 1, Len(w))
StartsWithLetter(w) == w # <<>> /\ (w[1].k \in {"word", "idkey", "small", "err", "date", "wnum", "hexl", "T", "cookie", "fernet", "url", "ref", "hashp", "tmpname"} \/ IsSep(w[1], {"_"}))
HasIdKey(w) == \E j \in DOMAIN w : w[j].k = "idkey"
(* a pid: the word ends with an opening bracket then digits *)
IsPid(w) == Len(w) >= 3 /\ w[Len(w)].k = "num" /\ IsSep(w[Len(w) - 1], {"["})
(* three separate dashes with something around them *)
Dashes(w) == Cardinality({j \in DOMAIN w : IsSep(w[j], {"-"})})
ManyDashes(w) == Dashes(w) >= 3

(* the numbers are replaced by N *)
RECURSIVE NoNumbers(_)
NoNumbers(w) == IF w = <<>> THEN <<>>
  ELSE IF w[1].k = "num" THEN <<<<"N", 0>>>> \o NoNumbers(IF Len(w) > 2 /\ IsSep(w[2], {"."}) /\ w[3].k = "num" THEN SubSeq(w, 4, Len(w)) ELSE Tail(w))
  ELSE <<<<w[1].k \o w[1].sep, w[1].i>>>> \o NoNumbers(Tail(w))
(* The result: the tokens, and whether something was added *)
(* a token: its name, and the atoms it shows *)
Tok(x) == <<[t |-> x, a |-> <<>>]>>
ErrTok(i) == [t |-> "err", a |-> <<<<"err", i>>>>]
RECURSIVE Do(_)
Do(word) ==
  LET w == TLCEval(Trim(word)) IN
  IF One(w, "date") THEN [out |-> Tok("%DATE"), added |-> TRUE]
  ELSE IF IsHash(w) THEN [out |-> Tok("%HASH"), added |-> TRUE]
  ELSE IF IsUid(w) THEN [out |-> Tok("%ID"), added |-> TRUE]
  ELSE IF Starts(w, "cookie") \/ Starts(w, "fernet") THEN [out |-> Tok("%COOKIE"), added |-> TRUE]
  ELSE IF Starts(w, "url") THEN [out |-> Tok("%URL"), added |-> TRUE]
  ELSE IF IsPath(w) THEN [out |-> Tok("%PATH"), added |-> TRUE]
  ELSE IF Starts(w, "ref") THEN [out |-> Tok("%REF"), added |-> TRUE]
  ELSE IF IsBase64(w) THEN [out |-> Tok("%BASE64"), added |-> TRUE]
  ELSE IF One(w, "err") THEN [out |-> [j \in 1..5 |-> ErrTok(w[1].i)], added |-> TRUE]
  ELSE IF Length(w) <= (IF Variant = "small-4" THEN 4 ELSE 3) THEN [out |-> <<>>, added |-> FALSE]
  ELSE IF IsPid(w) THEN [out |-> Do(SubSeq(w, 1, Len(w) - 2)).out \o Tok("%PID"), added |-> TRUE]
  ELSE IF IsOdd(w) THEN [out |-> Tok("%ODD"), added |-> TRUE]
  ELSE LET kv == First(w, {"=", ":"})
           sl == First(w, {"/"})  da == First(w, {"-"})  pi == First(w, {"|"})  two == First(w, {"[", "(", "@"})
           Pair(j, mark) == LET l == TLCEval(Do(Left(w, j)))  r == TLCEval(Do(Right(w, j))) IN
             [out |-> (IF Variant = "drop-left" THEN <<>> ELSE l.out) \o (IF l.added THEN Tok(mark) ELSE <<>>) \o r.out, added |-> r.added] IN
       IF Variant = "dash-first" /\ da # 0 /\ ManyDashes(w) THEN [out |-> Tok("%DASH"), added |-> TRUE]
       ELSE IF kv # 0 /\ StartsWithLetter(Left(w, kv))
       THEN IF HasIdKey(Left(w, kv)) THEN [out |-> Do(Left(w, kv)).out \o Tok("%VALUE_ID"), added |-> TRUE]
            ELSE LET l == IF Variant = "drop-key" THEN <<>> ELSE Do(Left(w, kv)).out  r == TLCEval(Do(Right(w, kv))) IN [out |-> l \o Tok("%EQ") \o r.out, added |-> r.added]
       ELSE IF sl # 0 THEN Pair(sl, "/")
       ELSE IF da # 0 THEN (IF ManyDashes(Right(w, da)) THEN [out |-> Tok("%DASH"), added |-> TRUE] ELSE Pair(da, "-"))
       ELSE IF pi # 0 THEN Pair(pi, "|")
       ELSE IF Length(w) >= (IF Variant = "big-24" THEN 24 ELSE 32) THEN [out |-> Tok("%BIG"), added |-> TRUE]
       ELSE IF two # 0 THEN LET l == TLCEval(Do(Left(w, two)))  r == TLCEval(Do(TrimEnd(Right(w, two)))) IN [out |-> l.out \o r.out, added |-> r.added]
       \* the numbers are replaced by a letter
       ELSE LET n == Length([j \in DOMAIN w |-> [w[j] EXCEPT !.n = CASE w[j].k = "num" -> 1 [] w[j].k = "wnum" -> 5 [] OTHER -> @]]) IN
            IF n > 3 THEN [out |-> <<[t |-> "text", a |-> NoNumbers(w)]>>, added |-> TRUE]
            ELSE [out |-> <<>>, added |-> FALSE]

(* the atoms that are in the tokens *)
InToks(out) == UNION {{out[j].a[m][2] : m \in DOMAIN out[j].a} : j \in DOMAIN out}
Kept(w) == InToks(Do(w).out) \ {0}

\* -------------------------------------------------------------- properties
Ordinary(w) == {w[j].i : j \in {m \in DOMAIN w : w[m].k \in {"word", "idkey", "err"}}}
(* the words that are claimed to be kept: the whole is short, there are few dashes, and no key announces an identifier *)
Claimed(w) == Length(w) <= 24 /\ Dashes(w) <= 3 /\ ~(HasIdKey(w) /\ First(w, {"=", ":"}) # 0)
KeepsWords(w) == Claimed(w) => Ordinary(w) \subseteq Kept(w)
(* two words that only differ by the digits of their volatile atoms *)
Resize(w, n) == [j \in DOMAIN w |-> CASE w[j].k \in {"num", "hex"} -> [w[j] EXCEPT !.n = n] [] w[j].k = "wnum" -> [w[j] EXCEPT !.n = 4 + n] [] OTHER -> w[j]]
(* a number of any size gives the same tokens, alone or in a word that is not long; tiny groups, such as 1/2, may disappear *)
Volatile(w) == /\ Len(w) = 1 /\ Length(w) <= (IF w[1].k = "num" THEN 60 ELSE 24) => Do(w).out = Do(Resize(w, 5)).out
               /\ Length(Resize(w, 7)) <= 24 => Do(Resize(w, 4)).out = Do(Resize(w, 7)).out
=============================================================================
