---------------------------- MODULE TokenFields -----------------------------
(* The volatile fields: for each kind of field, the shapes that its values   *)
(* have.  The values of a kind, in the same context, give the same tokens.   *)
EXTENDS Tokens, Json, IOUtils, SequencesExt
N(n) == Atom("num", n, 0)   S(c) == Sep(c)
H(n) == Atom("hex", n, 0)   L(n) == Atom("hexl", n, 0)
Grp == {N(2), H(2), L(2)}
Grp4 == {N(4), H(4), L(4)}
One1(k, ns) == {<<Atom(k, n, 0)>> : n \in ns}
(* each field is a set of shapes *)
Field(f) ==
  CASE f = "number"  -> One1("num", 1..12)
    [] f = "float"   -> {<<N(a), S("."), N(b)>> : a \in 1..6, b \in 1..6}
    [] f = "hexa"    -> One1("hex", 3..12)
    [] f = "day"     -> One1("date", {6, 7, 8, 9})
    [] f = "shortday" -> One1("date", {3})
    [] f = "date"    -> {<<N(4), S("-"), N(2), S("-"), N(2)>>}
    [] f = "time"    -> {<<N(2), S(":"), N(2), S(":"), N(2)>>} \cup {<<N(2), S(":"), N(2), S(":"), N(2), S("."), N(n)>> : n \in {1, 3, 6}}
    [] f = "timez" -> {<<N(2), S(":"), N(2), S(":"), N(2), Atom("Z", 1, 8)>>} \cup {<<N(2), S(":"), N(2), S(":"), N(2), S("."), N(n), Atom("Z", 1, 8)>> : n \in {3, 6}}
    [] f = "csrf" -> One1("csrf", {64, 65, 80, 120})
    [] f = "secret" -> One1("secret", 4..13)
    [] f = "timems"  -> {<<N(2), S(":"), N(2), S(":"), N(2), S(","), N(3)>>}
    [] f = "iso"     -> {<<N(4), S("-"), N(2), S("-"), N(2), Atom("T", 1, 9), N(2), S(":"), N(2), S(":"), N(2), S("."), N(n), Atom("Z", 1, 8)>> : n \in {3, 6}}
    [] f = "ipv4"    -> {<<N(a), S("."), N(b), S("."), N(b), S("."), N(c)>> : a \in 1..3, b \in 1..3, c \in 1..3}
    [] f = "ipv4port" -> {<<N(a), S("."), N(b), S("."), N(b), S("."), N(a), S(":"), N(n)>> : a \in 1..3, b \in 1..3, n \in 2..5}
    [] f = "ipv6"    -> {<<a, S(":"), b, S(":"), c, S(":"), S(":"), d>> : a \in Grp4, b \in Grp, c \in Grp4, d \in Grp}
                   \cup {<<a, S(":"), S(":"), b>> : a \in Grp4, b \in Grp} \cup {<<S(":"), S(":"), b>> : b \in {N(1), L(4), H(4)}}
    [] f = "ipv6port" -> {<<S("["), a, S(":"), b, S(":"), S(":"), d, S("]"), S(":"), N(n)>> : a \in Grp4, b \in Grp, d \in Grp, n \in 2..5}
    [] f = "mac"     -> {<<a, S(":"), b, S(":"), a, S(":"), b, S(":"), c, S(":"), c>> : a \in Grp, b \in Grp, c \in Grp}
    [] f = "uuid"    -> {<<a, S("-"), b, S("-"), c, S("-"), b, S("-"), d>> : a \in {N(8), H(8), L(8)}, b \in Grp4, c \in Grp4, d \in {N(12), H(12), L(12)}}
    [] f = "md5"     -> {<<N(32)>>, <<H(32)>>, <<L(32)>>}
    [] f = "sha1"    -> {<<N(40)>>, <<H(40)>>, <<L(40)>>}
    [] f = "sha256"  -> {<<N(64)>>, <<H(64)>>, <<L(64)>>}
    [] f = "hashp"   -> One1("hashp", {10, 20, 40})
    [] f = "sha256p" -> One1("hashp", {71})
    [] f = "pid"     -> {<<Atom("word", 7, 1), S("["), N(n), S("]")>> : n \in 1..7}
    [] f = "pidcolon" -> {<<Atom("word", 7, 1), S("["), N(n), S("]"), S(":")>> : n \in 1..7}
    [] f = "url"     -> One1("url", {15, 20, 35, 55})
    [] f = "tmp"     -> One1("tmp", {8, 12, 25, 50})
    [] f = "tmpname" -> One1("tmpname", {8, 12})
    [] f = "cookie"  -> One1("cookie", {8, 12, 25, 40, 50})
    [] f = "fernet"  -> One1("fernet", {30, 40, 55})
    [] f = "base64"  -> One1("b64", 25..55)
    [] f = "base64pad" -> One1("b64p", {8, 12, 24, 28, 48})
    [] f = "ref"     -> One1("ref", {8, 12, 18})
    [] f = "reflong" -> One1("ref", {26, 35, 50})
    [] f = "commits" -> {<<a, S("."), S("."), b>> : a \in {N(7), H(7), L(7)}, b \in {N(7), H(7), L(7)}}
    [] f = "odd"     -> One1("odd", {5, 8, 12, 20, 30})
    [] f = "lvm"     -> {<<Atom("wnum", 6, 11), S("-"), Atom("wnum", 4, 12), S("-"), Atom("wnum", 4, 13), S("-"), Atom("wnum", 4, 14), S("-"), Atom("wnum", 4, 15), S("-"), Atom("wnum", 4, 16), S("-"), Atom("wnum", 6, 17)>>}
    [] f = "wordnum" -> {<<Atom("word", 7, 1), N(n)>> : n \in 1..8} \cup {<<Atom("word", 7, 1), N(n), S("."), N(m)>> : n \in 1..3, m \in 1..3}
Names == {"number", "float", "hexa", "day", "shortday", "date", "time", "timez", "timems", "csrf", "iso", "ipv4", "ipv4port", "ipv6", "ipv6port", "mac", "uuid", "md5", "sha1", "sha256", "hashp", "sha256p", "pid", "pidcolon",
          "url", "tmp", "tmpname", "cookie", "fernet", "base64", "base64pad", "ref", "reflong", "commits", "odd", "lvm", "wordnum"}
K(n) == Atom("word", n, 5)
IdK == Atom("idkey", 9, 6)
Ctx(c, x) ==
  CASE c = "ideq" -> <<IdK, S("=")>> \o x  [] c = "idcolon" -> <<IdK, S(":")>> \o x
    [] c = "idquote" -> <<S("'"), IdK, S("'"), S(":"), S("'")>> \o x \o <<S("'"), S(",")>>  [] c = "ideqquote" -> <<IdK, S("="), S("'")>> \o x \o <<S("'")>>
    [] c = "plain" -> x              [] c = "dquote" -> <<S("\"")>> \o x \o <<S("\"")>>   [] c = "quote" -> <<S("'")>> \o x \o <<S("'")>>
    [] c = "paren" -> <<S("(")>> \o x \o <<S(")")>>        [] c = "bracket" -> <<S("[")>> \o x \o <<S("]")>>
    [] c = "brace" -> <<S("{")>> \o x \o <<S("}")>>        [] c = "angle" -> <<S("<")>> \o x \o <<S(">")>>
    [] c = "comma" -> x \o <<S(",")>>  [] c = "semi" -> x \o <<S(";")>>  [] c = "quotecomma" -> <<S("'")>> \o x \o <<S("'"), S(",")>>
    [] c = "eq" -> <<K(5), S("=")>> \o x               [] c = "colon" -> <<K(5), S(":")>> \o x
    [] c = "eqquote" -> <<K(5), S("="), S("'")>> \o x \o <<S("'")>>     [] c = "colonquote" -> <<S("'"), K(5), S("'"), S(":"), S("'")>> \o x \o <<S("'"), S(",")>>
    [] c = "eqparen" -> <<K(5), S("="), S("(")>> \o x \o <<S(")")>>     [] c = "eqcomma" -> <<K(5), S("=")>> \o x \o <<S(",")>>
Ctxs == {"plain", "dquote", "quote", "paren", "bracket", "brace", "angle", "comma", "semi", "quotecomma", "eq", "colon", "eqquote", "colonquote", "eqparen", "eqcomma"}
IdCtxs == {"ideq", "idcolon", "idquote", "ideqquote"}
(* the values of the keys that announce an identifier or a secret *)
Pairs == (Names \X Ctxs) \cup ({"secret", "number", "hexa", "md5", "uuid"} \X IdCtxs)
VARIABLE field, ctx, done
Outs(f, c) == {Do(Ctx(c, x)).out : x \in Field(f)}
Init == (\E p \in Pairs : field = p[1] /\ ctx = p[2]) /\ done = FALSE
Next == FALSE /\ UNCHANGED <<field, ctx, done>>
Spec == Init /\ [][Next]_<<field, ctx, done>>
InvSame == Cardinality(Outs(field, ctx)) = 1
GenInit == field = "" /\ ctx = "" /\ done = FALSE
GenNext == ~done /\ done' = TRUE /\ UNCHANGED <<field, ctx>>
  /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[field |-> p[1], ctx |-> p[2], words |-> SetToSeq({Ctx(p[2], x) : x \in Field(p[1])}), out |-> ToString(CHOOSE o \in Outs(p[1], p[2]) : TRUE)] : p \in Pairs}))
GenSpec == GenInit /\ [][GenNext]_<<field, ctx, done>>
=============================================================================
