----------------------------- MODULE DetectItems ----------------------------
(* Sources described by items <<kind, index, count>> (see DetectGen), fed to *)
(* the reference of Detector.                                                *)
EXTENDS Naturals, Sequences
CONSTANT Ctx
D == INSTANCE Detector

RECURSIVE Many(_, _, _, _)
Many(st, kind, j, n) == IF n = 0 THEN st ELSE Many(D!Line(st, <<kind, j>>, TRUE), kind, j + 1, n - 1)
(* the class is searched once: its other lines are like known ones *)
Same(st, cls, n) == D!KnownRun(D!Line(st, cls, TRUE), n - 1)

Item(st, it) ==
  CASE it[1] \in {"k", "s", "e", "t", "w", "g", "b"} -> D!KnownRun(st, it[3])
    [] it[1] = "a" -> Same(st, <<"a", it[2]>>, it[3])
    [] it[1] = "f" -> Same(st, <<"f", it[2]>>, it[3])
    [] it[1] = "L" -> Same(st, <<"L", it[2]>>, it[3])
    [] it[1] = "A" -> Many(st, "a", it[2], it[3])
    [] it[1] = "z" -> D!Blank(st, it[3])
    [] it[1] = "m" -> D!Marker(st)

RECURSIVE Feed(_, _, _)
Feed(st, items, i) == IF i > Len(items) THEN D!Finish(st) ELSE Feed(Item(st, items[i]), items, i + 1)

(* the sources are inspected one after the other with the same index *)
RECURSIVE Sources(_, _, _)
Sources(seen, srcs, i) ==
  IF i > Len(srcs) THEN <<>>
  ELSE LET st == Feed(D!Start(seen), srcs[i], 1) IN <<st>> \o Sources(st.seen, srcs, i + 1)
=============================================================================
