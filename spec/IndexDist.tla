------------------------------ MODULE IndexDist -----------------------------
(* The distance of a line to the baselines.  A line is its set of words; the *)
(* similarity of two lines is |A \cap B| / sqrt(|A| |B|); the distance is 1  *)
(* minus the best similarity.  Numbers are scaled by 1000 (TLC has integers).*)
EXTENDS Naturals, Sequences, FiniteSets

(* the similarity of two lines, squared, as a fraction *)
Sim(a, b) == [n |-> Cardinality(a \cap b) * Cardinality(a \cap b), d |-> Cardinality(a) * Cardinality(b)]
Less(x, y) == x.n * y.d < y.n * x.d

RECURSIVE BestOf(_, _, _)
BestOf(t, base, best) ==
  IF base = {} THEN best
  ELSE LET b == CHOOSE b \in base : TRUE
           s == Sim(t, b)
       IN BestOf(t, base \ {b}, IF Less(best, s) THEN s ELSE best)
(* base: a set of lines *)
Best(t, base) == BestOf(t, base, [n |-> 0, d |-> 1])

(* the largest s such that (s / 1000)^2 <= n / d, by bisection: n and d are below 2000 *)
RECURSIVE Root(_, _, _, _)
Root(n, d, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF m * m <= (n * 1000000) \div d THEN Root(n, d, m, hi) ELSE Root(n, d, lo, m)
Scaled(s) == Root(s.n, s.d, 0, 1001)

(* 1000 times the distance, give or take one *)
Distance(t, base) == 1000 - Scaled(Best(t, base))
=============================================================================
