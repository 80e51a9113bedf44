---------------------------- MODULE DiscoverGen -----------------------------
(* Trees and their expected sources.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT Fam

(* the ignored names: suffixes of the path, plain or compressed *)
Endings == {".ico", ".png", ".clf", ".tar", ".tar.bzip2", ".subunit", ".sqlite", ".db", ".bin", ".pcap.log.txt", ".eot", ".otf", ".woff", ".woff2",
             ".ttf", ".yaml", ".ini", ".conf", ".html"}
Whole == {"job-output.json", "log-classify.json", "zuul-manifest.json", "cacerts", "object.builder", "account.builder", "container.builder",
          "local/creds", "pacemaker/authkey", "mysql/tc.log.txt", "corosync/authkey"}
Ignored == {"file" \o s : s \in Endings} \cup Whole
IgnoredAll == Ignored \cup {s \o ".gz" : s \in Ignored}
(* names that only look like them *)
Kept == {"file" \o s \o "x" : s \in Endings} \cup {"ico", "png.txt", "yaml.log", "html.gz.1", "db.log", "job-output.txt", "job-output.json.1", "cacerts.log",
         "local/creds2", "mysql/error.log.txt", "corosync/corosync.log", "authkey", "creds", "tc.log.txt", "messages", "a.log", "x.gz", "a.json", ".hidden",
         "UPPER.PNG",
         "file.yml", "file.json", "file.xml", "file.csv", "file.cfg", "file.txt", "file.out", "file.err", "file.service", "file.sh", "file.py", "file.md", "file.rst", "file.svg",
         "file.jpg", "file.css", "file.js", "file.htm", "file.xz", "file.bz2", "file.zip", "file.tgz", "file.toml", "file.pem", "file.crt", "file.key", "file.pcap", "file.old", "file.bak",
         "file.swp", "file~", "#file#", ".file.log.swp", "file.log.txt", "file.log.1.gz", "file.gz.gz", "file.0", "README", "LICENSE", "Makefile", "core", "syslog", "dmesg", "console.log",
         "index", "index.log", "job-output.txt.gz", "zuul-info", "zuul-manifest.log", "certs", "ca-certs", "builder", "myobject.log", "passwd", "config", "config.log", "conf.log", "ini.log",
         "tar.log", "bin", "db", "png", "html", "yaml", "ini", "conf", "tar", "sqlite", "subunit", "testrepository.subunit.log", "file.yaml.log", "file.conf.d", "with space.log", "etc", "fileconf", "fileyaml", "filehtml.gz"}
Dirs == {"", "a/", "a/b/", "a/b/c/d/e/", "etc2/", "xetc/", ".d/", "with space/", ".git/", "lost+found/", "a/.git/x/",
         "proc/", "tmp/", ".cache/", "node_modules/", "a/CVS/", "\\b/", "ETC/"}
Etc == {"etc/", "a/etc/", "etc/b/", "a/etc/b/etc/"}

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
F(d, n) == [path |-> d \o n, kind |-> "file", listed |-> (n \notin IgnoredAll) /\ d \notin Etc]
Link(n, to) == [path |-> n, kind |-> "link", to |-> to, listed |-> FALSE]
Other(n, k) == [path |-> n, kind |-> k, listed |-> FALSE]

Tree(es) == [entries |-> SetToSeq(es), sources |-> SetToSeq({e.path : e \in {e \in es : e.listed}})]

Names(x_) == {Tree({F(d, n), F("z/", "witness.log")}) : d \in {"", "a/b/"}, n \in IgnoredAll \cup Kept}
        \cup {Tree({F("", n)}) : n \in IgnoredAll \cup {"messages", "a.log"}}
        \cup {Tree({F(d, "a.log"), F("k/", "b.log")}) : d \in Dirs \cup Etc}
        \cup {Tree({F("", n) : n \in IgnoredAll \cup Kept}), Tree({F(d, "a.log") : d \in Dirs \cup Etc})}

Shapes == {F("", "a.log"), F("d/", "b.log"), F("d/", "b.log.1"), F("d/e/", "c.log"), F("d/e/", "d.log.gz"), F("etc/", "e.log"), F("d/", "file.png")}
Links == {Link("l1", "a.log"), Link("l2.log", "d"), Link("d/l3", "."), Link("d/e/up", "d"), Link("broken.log", "nowhere"), Link("d/self", "d/self")}
Others == {Other("pipe.log", "fifo"), Other("d/sock.log", "sock"), Other("empty", "dir"), Other("d/empty.log", "dir")}
Mixed(x_) == {Tree(s \cup l \cup o) : s \in SUBSET Shapes, l \in {{}, Links, {Link("d/l3", ".")}, {Link("l1", "a.log"), Link("l2.log", "d")}}, o \in {{}, Others}}

(* deep and wide trees *)
Deep(x_) == {Tree({F(Rep("d/", n), "a.log"), F("", "b.log")}) : n \in {8, 9, 10, 11, 12, 16, 17, 20, 33, 65, 130, 250}}
       \cup {Tree({F(Rep("d/", n), f) : n \in 0..k, f \in {"a.log", "z.log", "file.png"}} \cup {F(Rep("d/", n) \o "e/", "b.log") : n \in 0..k}) : k \in {4, 11, 14, 40}}
       \cup {Tree({F("", "a" \o ToString(i) \o ".log") : i \in 1..n} \cup {F("w" \o ToString(i) \o "/", "b.log") : i \in 1..m}) : n \in {0, 1, 300, 1100}, m \in {1, 70}}

Cases == CASE Fam = "names" -> Names(0) [] Fam = "mixed" -> Mixed(0) [] Fam = "deep" -> Deep(0)
(* the expected sources are the listed entries and no other *)
ASSUME \A c \in Cases : \A i \in DOMAIN c.entries : (c.entries[i].path \in ToSet(c.sources)) <=> c.entries[i].listed
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
