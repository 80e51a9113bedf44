------------------------------ MODULE Bindings ------------------------------
(* The python module: opaque handles on the two kinds of model, saved bytes. *)
(* Every history of creations, searches, saves, loads and deletions; a call  *)
(* with a handle of another kind, or with incomplete bytes, is refused, and  *)
(* a search gives the distances to the baselines of its own handle.          *)
EXTENDS IndexDist, TLC
CONSTANTS MaxOps, Variant
ASSUME Variant \in {"fixed", "confused", "shared", "lenient"}

(* the baselines a handle can be made of, and the targets: sequences of sets of words *)
Bases == << <<>>, << {1, 2, 3}, {4} >>, << {1}, {2, 5}, {1, 2, 3, 4} >> >>
Targets == << {1, 2, 3}, {4}, {5, 6}, {2, 5, 7}, {8} >>
SetOf(s) == {s[i] : i \in DOMAIN s}
Expected(b) == [i \in DOMAIN Targets |-> Distance(Targets[i], SetOf(Bases[b]))]

(* heap: the models; a handle is a cell of the heap, which stays as long as it is used *)
VARIABLES heap, handles, blobs, hist
vars == <<heap, handles, blobs, hist>>
Init == heap = <<>> /\ handles = <<>> /\ blobs = <<>> /\ hist = <<>>

Ok(d) == [st |-> "ok", d |-> d]
Error == [st |-> "error", d |-> <<>>]
Garbage == [st |-> "garbage", d |-> <<>>]
Log(op, h, a, res) == hist' = Append(hist, [op |-> op, h |-> h, a |-> a, res |-> res])
More == Len(hist) < MaxOps

(* the shared design keeps a single cell per kind *)
Cell(kind, b) == IF Variant = "shared" /\ \E c \in DOMAIN heap : heap[c].kind = kind
                 THEN CHOOSE c \in DOMAIN heap : heap[c].kind = kind ELSE Len(heap) + 1
Put(kind, b) == LET c == Cell(kind, b) IN
                /\ heap' = IF c \in DOMAIN heap THEN [heap EXCEPT ![c].base = b] ELSE Append(heap, [kind |-> kind, base |-> b])
                /\ handles' = Append(handles, [cell |-> c, kind |-> kind, base |-> b, live |-> TRUE])
Make(kind, b) == More /\ Put(kind, b) /\ Log(kind, Len(handles) + 1, b, Ok(<<>>)) /\ UNCHANGED blobs
Foreign == /\ More /\ \A i \in DOMAIN handles : handles[i].kind # "foreign"
           /\ Put("foreign", 1) /\ Log("foreign", Len(handles) + 1, 0, Ok(<<>>)) /\ UNCHANGED blobs
Live(h) == handles[h].live

(* the call wants a model of this kind *)
Answer(h, kind, res) == IF handles[h].kind = kind THEN res ELSE IF Variant = "confused" THEN Garbage ELSE Error
Search(h, kind) == /\ More /\ Live(h)
                   /\ Log("search_" \o kind, h, 0, Answer(h, kind, Ok(Expected(heap[handles[h].cell].base))))
                   /\ UNCHANGED <<heap, handles, blobs>>
Save(h) == /\ More /\ Live(h)
           /\ LET res == Answer(h, "mat", Ok(<<>>)) IN
              /\ Log("save", h, 0, res)
              /\ blobs' = IF res.st = "ok" THEN Append(blobs, heap[handles[h].cell].base) ELSE blobs
           /\ UNCHANGED <<heap, handles>>
Load(k) == /\ More /\ Put("mat", blobs[k]) /\ Log("load", Len(handles) + 1, k, Ok(<<>>)) /\ UNCHANGED blobs
LoadCut(k) == /\ More
              /\ IF Variant = "lenient" THEN Put("mat", 1) /\ Log("loadcut", Len(handles) + 1, k, Ok(<<>>))
                 ELSE UNCHANGED <<heap, handles>> /\ Log("loadcut", 0, k, Error)
              /\ UNCHANGED blobs
Drop(h) == More /\ Live(h) /\ handles' = [handles EXCEPT ![h].live = FALSE] /\ Log("drop", h, 0, Ok(<<>>)) /\ UNCHANGED <<heap, blobs>>

Next == \/ \E b \in DOMAIN Bases : Make("vec", b) \/ Make("mat", b)
        \/ Foreign
        \/ \E h \in DOMAIN handles : Search(h, "vec") \/ Search(h, "mat") \/ Save(h) \/ Drop(h)
        \/ \E k \in DOMAIN blobs : Load(k) \/ LoadCut(k)
Spec == Init /\ [][Next]_vars

(* the baselines a handle was made of, from the history alone *)
RECURSIVE BaseOf(_), BlobOf(_)
SavedAt(k) == CHOOSE i \in DOMAIN hist : hist[i].op = "save" /\ hist[i].res.st = "ok"
                 /\ Cardinality({j \in 1..i : hist[j].op = "save" /\ hist[j].res.st = "ok"}) = k
MadeAt(h) == CHOOSE i \in DOMAIN hist : hist[i].op \in {"vec", "mat", "foreign", "load", "loadcut"} /\ hist[i].h = h
BlobOf(k) == BaseOf(hist[SavedAt(k)].h)
BaseOf(h) == LET m == hist[MadeAt(h)] IN
             IF m.op = "load" THEN BlobOf(m.a) ELSE m.a
KindOf(h) == LET m == hist[MadeAt(h)] IN IF m.op = "load" THEN "mat" ELSE m.op

Own == \A i \in DOMAIN hist : LET x == hist[i] IN
   /\ (x.op = "search_vec" => x.res = IF KindOf(x.h) = "vec" THEN Ok(Expected(BaseOf(x.h))) ELSE Error)
   /\ (x.op = "search_mat" => x.res = IF KindOf(x.h) = "mat" THEN Ok(Expected(BaseOf(x.h))) ELSE Error)
   /\ (x.op = "save" => x.res.st = IF KindOf(x.h) = "mat" THEN "ok" ELSE "error")
   /\ (x.op = "loadcut" => x.res = Error)
=============================================================================
