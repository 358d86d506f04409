------------------------------- MODULE EngMC --------------------------------
(* When an operation of an exploration of engines is tried.                  *)
EXTENDS Engine
Cond(C, s, e, q) ==
  CASE q = "view" -> e.n = 1 \/ e.n \in s.cs[e.c].nm
    [] q = "used" -> e.x \in s.po[e.k].used
    [] q = "seen" -> e.x <= s.po[e.k].seen
    [] q = "seeno" -> e.x <= s.po[e.o].seen
    [] q = "left" -> s.left > 0
En(C, s, e) == LET g == e.g IN
  /\ s.eng \in Range(g.eng)
  /\ Len(s.cs) >= g.c /\ Len(s.cs) < g.cm
  /\ \A q \in Range(g.q) : Cond(C, s, e, q)
\* what a failing annotator leaves undone is not undone
Kept(C, s, t) == TRUE
=============================================================================
