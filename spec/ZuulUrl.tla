------------------------------ MODULE ZuulUrl -------------------------------
(* Which urls are build pages, and where their api is.                       *)
(* A path is a sequence of segments.  A build page ends with the segments    *)
(* build and uid; its api is beside it, below the prefix of the web          *)
(* interface, which ends before t/tenant when there is a tenant.             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Uids == {"a498f74ab32b49ffa9c9e7463fbf8885", "A498F74AB32B49FFA9C9E7463FBF8885", "00000000000000000000000000000000"}
NotUids == {"a498f74ab32b49ffa9c9e7463fbf888", "a498f74ab32b49ffa9c9e7463fbf88850", "a498f74a-b32b-49ff-a9c9-e7463fbf8", "a498f74ab32b49ffa9c9e7463fbf888%20", "x", ""}

IsPage(segs) == Len(segs) >= 2 /\ segs[Len(segs)] \in Uids /\ segs[Len(segs) - 1] = "build"
Above(segs) == SubSeq(segs, 1, Len(segs) - 2)
HasTenant(f) == Len(f) >= 2 /\ f[Len(f) - 1] = "t"
Api(segs) == LET f == Above(segs) IN
  IF HasTenant(f) THEN SubSeq(f, 1, Len(f) - 2) \o <<"api", "tenant", f[Len(f)]>> ELSE f \o <<"api">>
Request(segs) == IF IsPage(segs) THEN Api(segs) \o <<"build", segs[Len(segs)]>> ELSE <<>>

Fronts == {<<>>, <<"zuul">>, <<"a", "zuul">>, <<"Zuul-CI">>, <<"t">>, <<"build">>, <<"t", "build">>, <<"api">>, <<"build", "t">>, <<"t", "x", "y">>, <<"tt", "x">>, <<"T", "x">>, <<"tenant", "x">>, <<"api", "tenant", "x">>}
Tenants == {<<>>} \cup {<<"t", x>> : x \in {"zuul", "t", "build", "my-tenant", "My.Tenant_2", "a%20b", "api", "tenant"}}
Keys == {"build", "builds", "Build", "buildset", "t"}
Tails == {"", "?x=1", "#frag", "?next=/t/other/build/00000000000000000000000000000000", "#/build/00000000000000000000000000000000", "?a=/t/b"}
Case(segs, tail) == [segs |-> segs, tail |-> tail, request |-> Request(segs)]
Cases == {Case(f \o t \o <<k, u>>, q) : f \in Fronts, t \in Tenants, k \in {"build"}, u \in Uids, q \in Tails}
   \cup {Case(f \o t \o <<k, u>>, q) : f \in Fronts, t \in Tenants, k \in Keys, u \in NotUids \cup Uids, q \in {"", "?x=1"}}
   \cup {Case(f \o <<"build", u, x>>, "") : f \in Fronts, u \in Uids, x \in {"", "logs", "console"}}
   \cup {Case(<<u>>, "") : u \in Uids} \cup {Case(<<"">>, q) : q \in Tails}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][Next]_done
(* two pages of different prefixes, tenants or builds never share a request *)
ASSUME \A f, g \in Fronts, t, s \in Tenants, u, v \in Uids :
   (f \o t \o <<"build", u>> # g \o s \o <<"build", v>>) => Request(f \o t \o <<"build", u>>) # Request(g \o s \o <<"build", v>>)
=============================================================================
