----------------------------- MODULE RenderGen ------------------------------
EXTENDS Render
CONSTANT MaxText
Chars == {"lt", "gt", "amp", "quot", "semi", "l", "t", "o"}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
(* the lists of anomalies: each starts after the previous one *)
Ctx == 0..3
A(n, b, f) == [no |-> n, before |-> b, after |-> f]
Firsts == {A(b + 1 + g, b, f) : b \in Ctx, f \in Ctx, g \in {0, 1, 40}}
After(a) == {A(LastNo(a) + 1 + g + b, b, f) : g \in {0, 1, 1000}, b \in Ctx, f \in Ctx}
Pairs == UNION {{<<a, b>> : b \in After(a)} : a \in Firsts}
Small == {x \in Pairs : x[1].no < 4 /\ x[2].no - LastNo(x[1]) < 4}
Lists(f) == CASE f = "pairs" -> {<<>>} \cup {<<a>> : a \in Firsts} \cup Pairs
              [] f = "triples" -> UNION {{Append(x, b) : b \in After(x[2])} : x \in Small}
(* more anomalies than a reader would look at *)
Many(x_) == {[i \in 1..n |-> A(s * i, 1, f)] : n \in {1100, 2300}, s \in {3, 5}, f \in {0, 1}}
(* positions far in a file *)
Far(x_) == {<<A(n, b, f), A(n + f + b + 1 + g, b, f)>> : n \in {10000, 1234567, 99999999}, b \in Ctx, f \in Ctx, g \in {0, 1, 1000000}}
VARIABLE v, t, as, mode
vars == <<v, t, as, mode>>
Init == \/ mode = "page" /\ v \in Texts(2) /\ t \in Texts(MaxText) /\ as = <<>>
        \/ mode = "rows" /\ v = <<>> /\ t = <<>> /\ as \in Lists("pairs") \cup Lists("triples") \cup Far(0)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
InvPage == mode = "page" => PageOK(v, t)
InvRows == mode = "rows" => SepOK(as)
GenInit == mode = "gen" /\ v = <<>> /\ t = <<>> /\ as = <<>>
GenNext == mode = "gen" /\ mode' = "done" /\ UNCHANGED <<v, t, as>>
   /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[as |-> x, rows |-> Rows(x, 1)] : x \in Lists("pairs") \cup Lists("triples") \cup Many(0) \cup Far(0)}))
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
