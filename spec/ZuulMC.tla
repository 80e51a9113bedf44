------------------------------- MODULE ZuulMC -------------------------------
EXTENDS Zuul
Small == {[Base EXCEPT !.self = s, !.change = c, !.project = p, !.head = h, !.ref = r, !.age = a] :
          s \in BOOLEAN, c \in {"same", "other", "none"}, p \in BOOLEAN, h \in {"yes", "no"}, r \in BOOLEAN, a \in {0, 60}}
=============================================================================
