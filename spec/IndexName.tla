------------------------------ MODULE IndexName -----------------------------
(* Paths and their identity.  A path is made of a prefix, a parent           *)
(* directory, an optional short-hash directory, a file name with digits in   *)
(* it, and a rotation or compression suffix.  Its identity is the            *)
(* alphabetic part of the parent and of the name; two paths must have the    *)
(* same index name if and only if they have the same identity.               *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT Fam

P(prefix, parent, hash, name, digits, rot) == [prefix |-> prefix, parent |-> parent, hash |-> hash, name |-> name, digits |-> digits, rot |-> rot]

(* parent directories: <<text, identity>> *)
Parents == {<<"", "">>, <<"alpha", "alpha">>, <<"beta", "beta">>, <<"al_pha", "al_pha">>, <<"alpha7", "alpha">>, <<"al42pha", "alpha">>, <<"42", "">>,
            <<"alpha-beta", "alpha-beta">>, <<"deadbee1", "deadbee">>, <<"abcdefg", "abcdefg">>, <<"Alpha", "Alpha">>,
            <<"abcdef", "abcdef">>, <<"ABCDEFA", "ABCDEFA">>, <<"abc-def", "abc-def">>, <<"abcdeff0", "abcdeff">>}
(* file names: the part before the digits, the part after *)
Names == {<<"one", ".log">>, <<"two", ".log">>, <<"one", ".txt">>, <<"on_e", ".log">>, <<"messages", "">>, <<"job-output", ".txt">>, <<"One", ".log">>, <<"one.log", "">>}
Digits == {"", "1", "42", "007"}
Rotations == {"", ".1", ".42", "-20220102", ".2022-01-02", "_3", ".gz", ".1.gz", ".gz.3", "-20220102.gz", ".2.3"}
Hashes == {"", "015da2b", "abcdef0", "1234567", "fffffff"}
Roots == {"", "/", "x/", "/x/9/y/"}

Text(p) == p.prefix \o (IF p.parent[1] = "" THEN "" ELSE p.parent[1] \o "/") \o (IF p.hash = "" THEN "" ELSE p.hash \o "/")
           \o p.name[1] \o p.digits \o p.name[2] \o p.rot
Identity(p) == <<"file", p.parent[2], p.name[1] \o p.name[2]>>

(* a prefix is itself a parent when there is no parent directory *)
Well(p) == /\ (p.parent[1] = "" => p.prefix \in {"", "/"})
           /\ (p.hash = "" \/ p.parent[1] # "" \/ p.prefix \in {"", "/"})
Item(p) == [path |-> Text(p), id |-> Identity(p)]

Regular == {Item(p) : p \in {p \in {P(pr, pa, h, n, d, r) : pr \in {"", "/x/9/y/"}, pa \in Parents, h \in {"", "015da2b"}, n \in Names, d \in {"", "42"}, r \in Rotations} : Well(p)}}
      \cup {Item(p) : p \in {p \in {P(pr, pa, h, n, d, r) : pr \in Roots, pa \in {<<"", "">>, <<"alpha", "alpha">>, <<"42", "">>}, h \in Hashes,
                                       n \in {<<"one", ".log">>, <<"two", ".log">>}, d \in Digits, r \in {"", ".1", ".gz", ".7.gz"}} : Well(p)}}

(* pods, instances, volumes: the identifier after the first dash is dropped *)
Ids == {"7fdb57778f-qkzkc", "fcd58c584-wbcmc", "328297fa-9941-4df5-b34f-336f02c76be4", "0"}
Services == {"zuul", "nodepool", "zuulx", "etcd"}
Exts == {".log", ".txt", ".log.1", ".log.gz", ""}
(* what only looks like them *)
Near == {"tripod", "podman", "xpod", "pods", "qemux", "libqemu", "instance", "pvc", "k8s"}
NearNames == {<<"camera-left", ".log">>, <<"camera-right", ".log">>, <<"instance-left", ".log">>, <<"instance-right", ".txt">>, <<"xk8s_zuul-left", ".log">>, <<"k8s-zuul-left", ".log">>,
              <<"xpvc-left", ".log">>, <<"pvcs-left", ".log">>, <<"pvcs-right", ".log">>, <<"one.gz", ".log">>, <<"gzip", ".log">>, <<"K8S_zuul-left", ".log">>}
Alike == {Item(P(pr, <<n, n>>, h, f, d, r)) : pr \in {"", "/", "/pod/"}, n \in Near \ {"k8s"}, h \in {"", "015da2b"}, f \in NearNames, d \in {"", "42"}, r \in {"", ".3", ".gz"}}
   \cup {Item(P("015da2b/", <<n, n>>, "", f, "", r)) : n \in {"alpha", "beta"}, f \in {<<"one", ".log">>, <<"two", ".log">>}, r \in {"", ".1"}}
   \cup {Item(P("/pod/", <<n, n>>, "", <<"two-left", ".log">>, d, "")) : n \in {"alpha", "beta"}, d \in {"", "1"}}
   \cup {Item(P("/qemu/", <<n, n>>, "", <<"instance-left", ".log">>, d, "")) : n \in {"alpha", "beta"}, d \in {"", "1"}}
(* what is not an instance keeps its name *)
Qemu == {Item(P(pr, <<"qemu", "qemu">>, "", f, d, r)) : pr \in {"", "/", "libvirt/"}, f \in {<<"libvirtd", ".log">>, <<"qemu-guest", ".log">>, <<"monitor", ".txt">>, <<"instances", ".log">>},
                                                       d \in {"", "42"}, r \in {"", ".1", ".gz"}}
   \cup {Item(P(pr, pa, "", f, d, r)) : pr \in {"", "/"}, pa \in {<<"alpha", "alpha">>, <<"libvirt", "libvirt">>}, f \in {<<"pvc", ".log">>, <<"pvcs", ".log">>, <<"k8s", ".log">>, <<"pod", ".log">>, <<"podman", ".log">>, <<"qemu", ".log">>},
                                                       d \in {"", "42"}, r \in {"", ".1", ".gz"}}
Special == {[path |-> pr \o "pod/" \o s \o "-" \o i \o e, id |-> <<"pod", "pod", s>>] : pr \in {"", "/", "logs/"}, s \in Services, i \in Ids, e \in Exts}
      \cup {[path |-> pr \o "k8s_" \o s \o "-" \o i \o e, id |-> <<"k8s", "", s>>] : pr \in {"", "/", "containers/"}, s \in Services, i \in Ids, e \in Exts}
      \cup {[path |-> pr \o "pvc-" \o i \o e, id |-> <<"pvc", "", "">>] : pr \in {"", "/", "volumes/"}, i \in Ids, e \in Exts}
      \cup {[path |-> pr \o "qemu/instance-" \o i \o e, id |-> <<"qemu", "", "">>] : pr \in {"", "/", "libvirt/"}, i \in {"0000001d", "000000ec", "42"}, e \in Exts}

(* long names which only differ far from their beginning *)
RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN "" ELSE t \o Rep(t, n - 1)
LongNames == {<<Rep("neutron-", n) \o e, ".log">> : n \in {1, 2, 4, 8, 16, 25}, e \in {"left", "right"}}
LongServices == {Rep("openstack_", n) \o e : n \in {1, 2, 4, 8, 15}, e \in {"left", "right"}}
Long == {Item(P(pr, pa, h, n, d, r)) : pr \in {"", "/x/9/y/"}, pa \in {<<"alpha", "alpha">>, <<Rep("abcdefghij", 20), Rep("abcdefghij", 20)>>, <<Rep("abcdefghij", 19) \o "abc5d", Rep("abcdefghij", 19) \o "abcd">>},
                                         h \in {"", "015da2b"}, n \in LongNames, d \in {"", "42", "20220102112233"}, r \in {"", ".1", "-20220102.gz", ".gz.3"}}
   \cup {[path |-> pr \o "pod/" \o s \o "-" \o i \o ".log", id |-> <<"pod", "pod", s>>] : pr \in {"", "logs/"}, s \in LongServices, i \in Ids}
   \cup {[path |-> pr \o "k8s_" \o s \o "-" \o i \o ".log", id |-> <<"k8s", "", s>>] : pr \in {"", "containers/"}, s \in LongServices, i \in Ids}

(* distinct identities have distinct texts, so the generation is meaningful *)
ASSUME \A a, b \in {Item(P("", pa, "", n, "", "")) : pa \in {<<"alpha", "alpha">>, <<"beta", "beta">>}, n \in Names} : a.path = b.path => a.id = b.id
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Regular \cup Special \cup Alike \cup Qemu \cup Long))
VARIABLE v
Spec == v = 0 /\ [][FALSE]_v
=============================================================================
