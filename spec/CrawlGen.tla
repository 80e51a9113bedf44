------------------------------ MODULE CrawlGen ------------------------------
(* Sites, response orders, and what crawling them must give.                 *)
(* A link is <<href, target>>; a target that ends with "/" (or index.html)   *)
(* is a directory.  The order of the responses is given by a priority list:  *)
(* among the requests in flight the first ones of the list are answered, n   *)
(* at a time; fly gives the number of requests in flight after each answer,  *)
(* with 4 workers.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT Fam

D(href, to) == [href |-> href, to |-> to, kind |-> "dir"]
F(href, to) == [href |-> href, to |-> to, kind |-> "file"]
X(href) == [href |-> href, to |-> "", kind |-> "none"]       \* a link that is not to be followed
Page(path, links) == [path |-> path, links |-> links, depth |-> Len(path), redir |-> 0]
(* a page that is answered with a redirection (its status) to another one, and the page there: its links are relative *)
(* to where it is, and go down from the page that was asked for                                                      *)
Moved(path, code, to) == [path |-> path, links |-> <<D(to, to)>>, depth |-> 0, redir |-> code]
There(path, origin, links) == [path |-> path, links |-> links, depth |-> Len(origin), redir |-> 0]

(* a site: a sequence of pages, the first is the root *)
PageOf(site, p) == site[CHOOSE i \in DOMAIN site : site[i].path = p]
Paths(site) == {site[i].path : i \in DOMAIN site}
(* a sequence of targets without repetition *)
Sub(site, p) == LET ls == PageOf(site, p).links IN [i \in DOMAIN ls |-> ls[i]]
Targets(site, p, kind) == {PageOf(site, p).links[i].to : i \in {i \in DOMAIN PageOf(site, p).links : PageOf(site, p).links[i].kind = kind}}
Depth(site, p) == PageOf(site, p).depth

(* the links of each page to follow: those that go down *)
Down(site) == [p \in Paths(site) |-> {t \in Targets(site, p, "dir") : Len(t) > Depth(site, p)}]
RECURSIVE Reach(_, _, _)
Reach(down, bad, s) ==
  LET n == TLCEval(s \cup UNION {down[p] : p \in s \ bad}) IN IF n = s THEN s ELSE Reach(down, bad, n)

(* the coarse crawler: the answers are processed at once; at most 4 requests are in flight *)
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Flies(_, _, _, _, _, _)
Flies(down, bad, vis, out, prio, n) ==
  IF out = {} THEN <<>>
  ELSE LET cand == TLCEval({i \in DOMAIN prio : prio[i] \in out})
           rel == TLCEval({prio[i] : i \in {i \in cand : Cardinality({j \in cand : j < i}) < n}})
           new == TLCEval(UNION {IF p \in bad THEN {} ELSE down[p] \ vis : p \in rel})
           out1 == TLCEval((out \ rel) \cup new)
       IN <<Least(4, Cardinality(out1))>> \o Flies(down, bad, TLCEval(vis \cup new), out1, prio, n)

Case(site0, bad, prio0, n) ==
  LET site == TLCEval(site0)
      prio == TLCEval(prio0)
      root == site[1].path
      down == TLCEval(Down(site))
      r == TLCEval(Reach(down, DOMAIN bad, {root}))
      files == UNION {Targets(site, p, "file") : p \in r \ DOMAIN bad}
  IN [root |-> root, pages |-> [i \in DOMAIN site |-> [path |-> site[i].path, hrefs |-> [j \in DOMAIN site[i].links |-> site[i].links[j].href], redir |-> site[i].redir,
                                     how |-> IF site[i].path \in DOMAIN bad THEN bad[site[i].path] ELSE "ok"]],
      prio |-> prio, batch |-> n, fly |-> Flies(down, DOMAIN bad, {root}, {root}, prio, n),
      files |-> SetToSeq(files), dirs |-> SetToSeq(r), errors |-> Cardinality(r \cap DOMAIN bad)]

None == [x \in {} |-> "ok"]
Bad == {"404", "500", "drop", "cut", "503"}
(* the rotations of the pages, in both directions *)
Rot(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
Prios(site) == LET s == TLCEval(SetToSeq(Paths(TLCEval(site)))) IN {Rot(s, k) : k \in 0..(Len(s) - 1)} \cup {Rot(Reverse(s), k) : k \in 0..(Len(s) - 1)}
AllPrios(site) == SetToSeqs(Paths(site))

(* ---- small sites with every subset of optional links, in every order ---- *)
R == "/r/"  A == "/r/a/"  B == "/r/bb/"  C == "/r/a/cc/"
Opt(R_, from, link) == IF <<from, link>> \in R_ THEN <<link>> ELSE <<>>
OptLinks == {<<"R", D("/r/", R)>>, <<"A", D("/r/", R)>>, <<"A", D("../bb/", B)>>, <<"B", D("/r/a/", A)>>, <<"A", F("shared.log", "/r/a/shared.log")>>, <<"B", F("/r/a/shared.log", "/r/a/shared.log")>>,
             <<"B", D("/r/a/cc/", C)>>, <<"C", D("/r/a/", A)>>}
SmallSite(o, l) ==
  <<Page(R, IF l THEN <<D("a/", A)>> \o Opt(o, "R", D("/r/", R)) \o <<F("root.log", "/r/root.log"), D("bb/", B)>>
                 ELSE <<D("bb/", B), F("root.log", "/r/root.log"), F("root.log", "/r/root.log"), D("bb/", B), D("/r/a/", A)>>),
    Page(A, Opt(o, "A", D("/r/", R)) \o <<D("cc/", C)>> \o Opt(o, "A", F("shared.log", "/r/a/shared.log"))),
    Page(B, Opt(o, "B", D("/r/a/", A)) \o <<F("b.log", "/r/bb/b.log")>> \o Opt(o, "B", F("/r/a/shared.log", "/r/a/shared.log")) \o Opt(o, "B", D("/r/a/cc/", C))),
    Page(C, Opt(o, "C", D("/r/a/", A)) \o <<F("c.log", "/r/a/cc/c.log")>>)>>
Small(x_) ==
  UNION {{Case(SmallSite(o, l), None, pr, n) : pr \in {<<R, A, B, C>>, <<R, B, A, C>>, <<R, A, C, B>>}, n \in {1, 2}} : o \in SUBSET (OptLinks \ {<<"A", D("../bb/", B)>>}), l \in BOOLEAN}
  \cup {Case(SmallSite(o, TRUE), (p :> h), <<R, q, IF q = A THEN B ELSE A, C>>, 1) : o \in {{}, OptLinks \ {<<"A", D("../bb/", B)>>}}, p \in {R, A, B, C}, h \in Bad, q \in {A, B}}
  \cup {Case(SmallSite(OptLinks, FALSE), (p :> h @@ q :> "404"), <<R, B, A, C>>, n) : p \in {A, C}, q \in {B}, h \in Bad, n \in {1, 3}}

(* ---- more directories than workers ---- *)
Name(i) == "d" \o ToString(i)
Up(i) == D("/r/", R)
WideSite(n, deep) ==
  <<Page(R, [i \in 1..n |-> D(Name(i) \o "/", R \o Name(i) \o "/")])>>
  \o [i \in 1..n |-> Page(R \o Name(i) \o "/", <<Up(i), F("x.log", R \o Name(i) \o "/x.log"), F("all.log", R \o Name(i) \o "/all.log")>>
                            \o (IF i <= deep THEN <<D("sub/", R \o Name(i) \o "/sub/")>> ELSE <<>>)
                            \o <<D("/r/" \o Name(1 + (i % n)) \o "/", R \o Name(1 + (i % n)) \o "/")>>)]
  \o [i \in 1..deep |-> Page(R \o Name(i) \o "/sub/", <<D("/r/" \o Name(i) \o "/", R \o Name(i) \o "/"), F("y.log", R \o Name(i) \o "/sub/y.log"), D("/r/" \o Name(1) \o "/sub/", R \o Name(1) \o "/sub/")>>)]
Wide(x_) == UNION {{Case(WideSite(s[1], s[2]), None, pr, n) : pr \in Prios(WideSite(s[1], s[2])), n \in {1, 2, 4}} : s \in {<<4, 1>>, <<5, 2>>, <<7, 3>>, <<9, 0>>}}
       \cup UNION {{Case(WideSite(5, 2), (R \o Name(i) \o "/" :> h), pr, 2) : pr \in Prios(WideSite(5, 2)), i \in {1, 3}} : h \in {"500", "drop"}}
       \cup {Case(WideSite(40, 3), None, Rot(SetToSeq(Paths(WideSite(40, 3))), k), 4) : k \in {0, 20, 37}}

(* ---- a deep chain, with a file at each level, and a link to each page above ---- *)
RECURSIVE Chain(_)
Chain(i) == IF i = 0 THEN R ELSE Chain(i - 1) \o "z/"
ChainSite(n) == [i \in 1..n |-> Page(Chain(i - 1), <<F("f.log", Chain(i - 1) \o "f.log")>> \o (IF i > 1 THEN <<D(Chain(i - 2), Chain(i - 2)), D("/r/", R)>> ELSE <<>>)
                                                    \o (IF i < n THEN <<D("z/", Chain(i))>> ELSE <<>>))]
Deep(x_) == {Case(ChainSite(n), None, SetToSeq(Paths(ChainSite(n))), 1) : n \in {1, 2, 6, 30, 70}}
       \cup {Case(ChainSite(6), (Chain(k) :> h), SetToSeq(Paths(ChainSite(6))), 1) : k \in {1, 3, 5}, h \in Bad}

(* ---- names ---- *)
NamesOf == {"a", "b", "7", "ab", "_x", "~x", "-x", "%20x", "X.LOG", "a.log.gz", "a-b_c.txt", "index.htm", "myindex.html", "xindex.html.gz", "index.html5", "myindex.html.log", "x.html", "etc", "etc2", "a%20b.log", "a+b.log", "a=b.log", "a,b.log", "etc.log"}
DirNames == {"a", "7", "_d", "ab", "etc2", "xetc", "dir.log", "a%20b", "etc.d", "ETC", "Etc", "index.html.d", "index.html"}
Enc(n) == n
NameSite(fs, ds) == <<Page(R, [i \in DOMAIN fs |-> F(fs[i], R \o Enc(fs[i]))] \o [i \in DOMAIN ds |-> D(ds[i] \o "/", R \o ds[i] \o "/")]
                             \o <<X("?C=N;O=D"), X("../"), X("etc/"), X("#top")>>)>>
                    \o [i \in DOMAIN ds |-> Page(R \o ds[i] \o "/", <<F("in.log", R \o ds[i] \o "/in.log"), X("/r/etc/"), X("?C=S;O=A")>>)]
                    \o <<Page("/r/etc/", <<F("passwd.log", "/r/etc/passwd.log")>>)>>
NamesFam(x_) == {Case(NameSite(<<n>>, <<>>), None, <<R>>, 1) : n \in NamesOf}
       \cup {Case(NameSite(<<>>, <<n>>), None, <<R, R \o n \o "/">>, 1) : n \in DirNames}
       \cup {Case(NameSite(SetToSeq(NamesOf), SetToSeq(DirNames)), None, pr, 4) : pr \in {SetToSeq(Paths(NameSite(<<>>, SetToSeq(DirNames))))}}
       \cup {Case(<<Page(R, <<D("a/index.html", A), F("x.log", "/r/x.log")>>), Page(A, <<D("/r/index.html", R), F("y.log", "/r/a/y.log"), D("/r/a/", A)>>)>>, None, <<R, A>>, 1),
             \* a root without its slash, which is not redirected
             Case(<<Page("/r", <<D("r/a/", A), F("r/f.log", "/r/f.log"), D("/r/bb/", B), F("/r/g.log", "/r/g.log")>>), Page(A, <<F("x.log", "/r/a/x.log")>>), Page(B, <<F("y.log", "/r/bb/y.log")>>)>>, None, <<"/r", A, B>>, 1),
             Case(<<Page(R, <<D("index.html.d/index.html", "/r/index.html.d/"), D("index.html/index.html", "/r/index.html/")>>), Page("/r/index.html.d/", <<F("x.log", "/r/index.html.d/x.log")>>),
                    Page("/r/index.html/", <<F("y.log", "/r/index.html/y.log")>>)>>, None, <<R, "/r/index.html.d/", "/r/index.html/">>, 1),
             Case(<<Page(R, <<>>)>>, None, <<R>>, 1), Case(<<Page(R, <<F("x.log", "/r/x.log")>>)>>, (R :> "404"), <<R>>, 1)}

(* ---- pages that have moved, and a root without its slash ---- *)
Codes == {301, 302, 303, 307, 308}
M == "/mirror/r/aa/"
Inside(p) == <<F("in.log", p \o "in.log"), D("sub/", p \o "sub/"), X("../"), X("?C=N;O=D"), F("/r/shared.log", "/r/shared.log")>>
MovedSite(code) ==
  <<Page(R, <<D("a/", A), F("root.log", "/r/root.log"), D("bb/", B), F("shared.log", "/r/shared.log")>>),
    Moved(A, code, M), There(M, A, Inside(M)), Page(M \o "sub/", <<F("deep.log", M \o "sub/deep.log"), D("../", M), D("/r/", R)>>),
    Page(B, <<F("b.log", "/r/bb/b.log"), D("../", R)>>)>>
NoSlash(code) ==
  <<Moved("/r", code, R), There(R, "/r", <<D("a/", A), F("root.log", "/r/root.log"), D("/", "/")>>), Page(A, <<F("in.log", "/r/a/in.log"), D("../", R), D("sub/", "/r/a/sub/")>>),
    Page("/r/a/sub/", <<F("x.log", "/r/a/sub/x.log")>>)>>
Twice(code) ==
  <<Page(R, <<D("a/", A), F("root.log", "/r/root.log")>>), Moved(A, code, "/n/"), Moved("/n/", 308, "/nn/q/"), There("/nn/q/", A, <<F("in.log", "/nn/q/in.log"), D("zz/", "/nn/q/zz/"), D("/n/", "/n/")>>),
    Page("/nn/q/zz/", <<F("z.log", "/nn/q/zz/z.log")>>)>>
MovedFam(x_) == UNION {{Case(s, None, pr, n) : pr \in {SetToSeq(Paths(s)), Reverse(SetToSeq(Paths(s)))}, n \in {1, 4}} : s \in {MovedSite(c) : c \in Codes} \cup {NoSlash(c) : c \in Codes} \cup {Twice(c) : c \in Codes}}
       \cup {Case(MovedSite(302), (p :> h), SetToSeq(Paths(MovedSite(302))), 1) : p \in {M, M \o "sub/", B}, h \in Bad}

(* ---- the same links on several pages that are answered together ---- *)
Same(n, m) ==
  LET links == [i \in 1..m |-> F("/r/all/f" \o ToString(i) \o ".log", "/r/all/f" \o ToString(i) \o ".log")] \o [i \in 1..4 |-> D("/r/every/" \o Name(i) \o "/", "/r/every/" \o Name(i) \o "/")] IN
  <<Page(R, [i \in 1..n |-> D(Name(i) \o "/", R \o Name(i) \o "/")])>> \o [i \in 1..n |-> Page(R \o Name(i) \o "/", links)]
  \o [i \in 1..4 |-> Page("/r/every/" \o Name(i) \o "/", links)]
SameFam(x_) == {Case(Same(4, m), None, Rot(SetToSeq(Paths(Same(4, m))), k), 4) : m \in {400, 401, 402, 1200}, k \in {0, 1, 2, 4, 6}}

Cases == CASE Fam = "moved" -> MovedFam(0) [] Fam = "same" -> SameFam(0) [] Fam = "small" -> Small(0) [] Fam = "wide" -> Wide(0) [] Fam = "deep" -> Deep(0) [] Fam = "names" -> NamesFam(0)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
