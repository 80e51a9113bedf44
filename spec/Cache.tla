-------------------------------- MODULE Cache -------------------------------
(* The content cache.  A response is copied to a local file while it is read *)
(* by its consumer; the entry of its url exists once the end of the response *)
(* was read.  Several writers (in this process and in others) and readers    *)
(* work at the same time; a response fails, its consumer abandons it, the    *)
(* disk is full, a process dies.                                             *)
(*                                                                           *)
(* The files are inodes: a name designates one, a reader keeps the one it    *)
(* opened.  `good` is what the cache promises: the content of the last       *)
(* response of that url that was completely read.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NKeys, NDirs, Writers, Readers, Blocks, MaxOps, Variant
ASSUME Variant \in {"fixed", "visible", "in-place", "shared-pending", "publish-failed", "crash-visible", "dir-in-place", "drop-all"}
Keys == 1..NKeys
Dirs == 1..NDirs
Idle == [st |-> "idle", k |-> 0, c |-> 0, pos |-> 0, ino |-> 0]
NoInode == 0

VARIABLES ent,     \* Keys -> inode
          inode,   \* Seq of [c, n, fin]: the content, its blocks in the file, the trailer
          wr, rd,  \* the writers and the readers
          good,    \* Keys -> [c, opt]: what must be served, 0 when nothing; opt when a miss is fine too
          dirent, dirgood, heads,
          adds, hist
vars == <<ent, inode, wr, rd, good, dirent, dirgood, heads, adds, hist>>

Init == /\ ent = [k \in Keys |-> NoInode] /\ inode = <<>> /\ wr = [w \in Writers |-> Idle]
        /\ rd = [r \in Readers |-> [ino |-> NoInode, want |-> 0]]
        /\ good = [k \in Keys |-> [c |-> 0, opt |-> FALSE]]
        /\ dirent = [d \in Dirs |-> 0] /\ dirgood = [d \in Dirs |-> 0] /\ heads = [k \in Keys |-> "none"]
        /\ adds = 0 /\ hist = <<>>

Log(op, who, k, c, want) == hist' = Append(hist, [op |-> op, who |-> who, k |-> k, c |-> c, want |-> want])
More == Len(hist) < MaxOps
Rest == <<dirent, dirgood, heads>>

(* what reading an entry gives: the content, 0 for a miss, 99 for a partial or mixed one *)
Served(i) == IF i = NoInode THEN 0 ELSE IF inode[i].n = Blocks /\ inode[i].fin THEN inode[i].c ELSE 99

\* ------------------------------------------------------------- the writers
(* there may be an entry already, that another process added since this one  *)
(* looked for it: the new one replaces it once it is complete                *)
Add(w, k) ==
  /\ More /\ wr[w].st = "idle"
  /\ adds' = adds + 1
  /\ LET same == {v \in Writers : wr[v].st = "open" /\ wr[v].k = k}
         reuse == Variant = "shared-pending" /\ same # {}
         i == IF reuse THEN wr[CHOOSE v \in same : TRUE].ino ELSE Len(inode) + 1
         new == [c |-> adds + 1, n |-> 0, fin |-> FALSE] IN
     /\ inode' = IF reuse THEN [inode EXCEPT ![i] = new] ELSE Append(inode, new)
     /\ wr' = [wr EXCEPT ![w] = [st |-> "open", k |-> k, c |-> adds + 1, pos |-> 0, ino |-> i]]
     /\ ent' = IF Variant = "visible" THEN [ent EXCEPT ![k] = i] ELSE ent
  /\ Log("add", w, k, adds + 1, 0) /\ UNCHANGED <<rd, good>> /\ UNCHANGED Rest

(* the consumer reads a block; a block written in a file of another content is a mix *)
Grow(i, w) == [inode EXCEPT ![i] = IF @.c = wr[w].c /\ @.n = wr[w].pos THEN [@ EXCEPT !.n = @ + 1] ELSE [@ EXCEPT !.c = 99]]
Step(w) == /\ More /\ wr[w].st \in {"open", "retry", "failed"} /\ wr[w].pos < Blocks
           /\ inode' = IF wr[w].ino = NoInode THEN inode ELSE Grow(wr[w].ino, w)
           /\ wr' = [wr EXCEPT ![w].pos = @ + 1]
           /\ Log("step", w, wr[w].k, wr[w].c, 0) /\ UNCHANGED <<ent, rd, good, adds>> /\ UNCHANGED Rest

(* the remaining blocks then the end are read *)
End(w) ==
  /\ More /\ wr[w].st \in {"open", "retry", "failed"}
  /\ LET i == wr[w].ino  k == wr[w].k
         whole == inode[i].c = wr[w].c /\ inode[i].n = wr[w].pos
         done == [c |-> IF whole THEN wr[w].c ELSE 99, n |-> Blocks, fin |-> TRUE]
         publish == wr[w].st # "failed" \/ Variant = "publish-failed"
         fromFailed == [c |-> 99, n |-> Blocks, fin |-> TRUE]  \* the block of the failure is missing
         data == IF wr[w].st = "failed" THEN fromFailed ELSE done
         old == ent[k] IN
     /\ IF publish
        THEN IF Variant = "in-place" /\ old # NoInode
             THEN inode' = [inode EXCEPT ![old] = data, ![i] = data] /\ ent' = ent
             ELSE inode' = [inode EXCEPT ![i] = data] /\ ent' = [ent EXCEPT ![k] = i]
        ELSE UNCHANGED <<inode, ent>>
     /\ good' = CASE wr[w].st = "open" -> [good EXCEPT ![k] = [c |-> wr[w].c, opt |-> FALSE]]
                  [] wr[w].st = "retry" -> [good EXCEPT ![k] = [c |-> wr[w].c, opt |-> good[k].c = 0]]
                  [] OTHER -> good
  /\ wr' = [wr EXCEPT ![w] = Idle]
  /\ Log("end", w, wr[w].k, wr[w].c, wr[w].c) /\ UNCHANGED <<rd, adds>> /\ UNCHANGED Rest

(* the response fails; the consumer may go on reading *)
Fail(w) == /\ More /\ wr[w].st = "open" /\ wr' = [wr EXCEPT ![w].st = "failed"]
           /\ Log("fail", w, wr[w].k, wr[w].c, 0) /\ UNCHANGED <<ent, inode, rd, good, adds>> /\ UNCHANGED Rest
(* a read is interrupted by a signal, it can be done again *)
Interrupt(w) == /\ More /\ wr[w].st = "open" /\ wr' = [wr EXCEPT ![w].st = "retry"]
                /\ Log("interrupt", w, wr[w].k, wr[w].c, 0) /\ UNCHANGED <<ent, inode, rd, good, adds>> /\ UNCHANGED Rest
(* the consumer goes away before the end *)
Abandon(w) == /\ More /\ wr[w].st \in {"open", "retry", "failed"} /\ wr[w].pos < Blocks
              /\ wr' = [wr EXCEPT ![w] = Idle]
              /\ Log("abandon", w, wr[w].k, wr[w].c, 0) /\ UNCHANGED <<ent, inode, rd, good, adds>> /\ UNCHANGED Rest
(* the rest is read while the disk is full *)
Full(w) == /\ More /\ wr[w].st = "open" /\ wr[w].pos < Blocks /\ wr' = [wr EXCEPT ![w] = Idle]
           /\ Log("full", w, wr[w].k, wr[w].c, 0) /\ UNCHANGED <<ent, inode, rd, good, adds>> /\ UNCHANGED Rest

(* another process reads a whole response, or dies in the middle of it *)
Other(k) ==
  /\ More /\ adds' = adds + 1
  /\ LET same == {v \in Writers : wr[v].st = "open" /\ wr[v].k = k}
         reuse == Variant = "shared-pending" /\ same # {}
         i == IF reuse THEN wr[CHOOSE v \in same : TRUE].ino ELSE Len(inode) + 1
         new == [c |-> adds + 1, n |-> Blocks, fin |-> TRUE] IN
     /\ inode' = IF reuse THEN [inode EXCEPT ![i] = new] ELSE Append(inode, new)
     /\ ent' = [ent EXCEPT ![k] = i]
  /\ good' = [good EXCEPT ![k] = [c |-> adds + 1, opt |-> FALSE]]
  /\ Log("other", 0, k, adds + 1, adds + 1) /\ UNCHANGED <<wr, rd>> /\ UNCHANGED Rest
Crash(k) ==
  /\ More /\ adds' = adds + 1
  /\ inode' = Append(inode, [c |-> adds + 1, n |-> 1, fin |-> FALSE])
  /\ ent' = IF Variant \in {"visible", "crash-visible"} THEN [ent EXCEPT ![k] = Len(inode) + 1] ELSE ent
  /\ Log("crash", 0, k, adds + 1, 0) /\ UNCHANGED <<wr, rd, good>> /\ UNCHANGED Rest

\* ------------------------------------------------------------- the readers
Get(k) == /\ More /\ Log("get", 0, k, Served(ent[k]), IF good[k].opt THEN 100 + good[k].c ELSE good[k].c)
          /\ UNCHANGED <<ent, inode, wr, rd, good, adds>> /\ UNCHANGED Rest
(* when a miss is fine too, nothing is known of the reader: not opened *)
Open(r, k) == /\ More /\ rd[r].ino = NoInode /\ good[k].c # 0 /\ ~good[k].opt /\ ent[k] # NoInode
              /\ rd' = [rd EXCEPT ![r] = [ino |-> ent[k], want |-> good[k].c]]
              /\ Log("open", r, k, good[k].c, 0) /\ UNCHANGED <<ent, inode, wr, good, adds>> /\ UNCHANGED Rest
Read(r) == /\ More /\ rd[r].ino # NoInode
           /\ Log("rest", r, 0, Served(rd[r].ino), rd[r].want)
           /\ rd' = [rd EXCEPT ![r] = [ino |-> NoInode, want |-> 0]]
           /\ UNCHANGED <<ent, inode, wr, good, adds>> /\ UNCHANGED Rest
Drop(k) == /\ More
           /\ ent' = [j \in Keys |-> IF j = k \/ Variant = "drop-all" THEN NoInode ELSE ent[j]]
           /\ good' = [good EXCEPT ![k] = [c |-> 0, opt |-> FALSE]]
           /\ Log("drop", 0, k, 0, 0) /\ UNCHANGED <<inode, wr, rd, adds>> /\ UNCHANGED Rest

\* ------------------------------------------------- availability, listings
Same == UNCHANGED <<ent, inode, wr, rd, good>>
HeadSet(k, b) == /\ More /\ heads[k] \in {"none", b} /\ heads' = [heads EXCEPT ![k] = b]
                 /\ Log("headset-" \o b, 0, k, 0, 0) /\ Same /\ UNCHANGED <<dirent, dirgood, adds>>
DirAdd(d) == /\ More /\ adds' = adds + 1
             /\ dirent' = [dirent EXCEPT ![d] = adds + 1] /\ dirgood' = [dirgood EXCEPT ![d] = adds + 1]
             /\ Log("diradd", 0, d, adds + 1, 0) /\ Same /\ UNCHANGED heads
DirFull(d) == /\ More /\ adds' = adds + 1
              /\ dirent' = IF Variant = "dir-in-place" THEN [dirent EXCEPT ![d] = 99] ELSE dirent
              /\ Log("dirfull", 0, d, adds + 1, 0) /\ Same /\ UNCHANGED <<dirgood, heads>>
DirGet(d) == /\ More /\ Log("dirget", 0, d, dirent[d], dirgood[d]) /\ Same /\ UNCHANGED <<dirent, dirgood, heads, adds>>
DirDrop(d) == /\ More /\ dirent' = [dirent EXCEPT ![d] = 0] /\ dirgood' = [dirgood EXCEPT ![d] = 0]
              /\ Log("dirdrop", 0, d, 0, 0) /\ Same /\ UNCHANGED <<heads, adds>>

Next == \/ \E w \in Writers : Step(w) \/ End(w) \/ Fail(w) \/ Interrupt(w) \/ Abandon(w) \/ Full(w) \/ \E k \in Keys : Add(w, k)
        \/ \E k \in Keys : Other(k) \/ Crash(k) \/ Get(k) \/ Drop(k) \/ \E b \in {"yes", "no"} : HeadSet(k, b)
        \/ \E r \in Readers : Read(r) \/ \E k \in Keys : Open(r, k)
        \/ \E d \in Dirs : DirAdd(d) \/ DirFull(d) \/ DirGet(d) \/ DirDrop(d)
Spec == Init /\ [][Next]_vars
(* the histories are bounded, but not part of the state for the model checking *)
View == <<ent, inode, wr, rd, good, dirent, dirgood, heads, adds, Len(hist)>>

\* -------------------------------------------------------------- properties
(* an entry serves exactly the last complete response *)
Exact == \A k \in Keys : Served(ent[k]) = good[k].c
(* a reader gets the whole content it opened, whatever happened since *)
Stable == \A r \in Readers : rd[r].ino # NoInode => Served(rd[r].ino) = rd[r].want
DirExact == \A d \in Dirs : dirent[d] = dirgood[d]
=============================================================================
