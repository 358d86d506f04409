------------------------------- MODULE CasMC --------------------------------
(* When an operation of an exploration is tried: enough (and not too many)   *)
(* handles, views, iterators and streams, and the conditions it names.       *)
EXTENDS Cas
InMem(s, w, n) == w \in 1..Len(s.vw) /\ n \in ToSet(s.vw[w].mem)
Cond(C, s, e, q) ==
  CASE q = "cur" -> s.it[e.i].pos # 0
    [] q = "unidx" -> \A w \in 1..Len(s.vw) : ~InMem(s, w, Node(s, e.x))
    [] q = "out" -> ~InMem(s, e.w, Node(s, e.x))
    [] q = "in" -> InMem(s, e.w, Node(s, e.x))
    [] q = "sm" -> Len(s.sm) >= e.i /\ s.sm[e.i].k # "del"
    [] q = "nosm" -> Len(s.sm) < 2
    [] q = "sofa" -> s.fs[Node(s, e.x)].ty = SOFA
    [] q = "txt" -> TextOf(C, s, e.w) # <<>>
En(C, s, e) == LET g == e.g IN
  /\ Len(s.h) >= g.h /\ Len(s.h) < g.hm
  /\ Len(s.it) >= g.i /\ Len(s.it) < g.im
  /\ Len(s.vw) >= g.v /\ Len(s.vw) < g.vm
  /\ \A q \in ToSet(g.q) : Cond(C, s, e, q)
Kept(C, s, t) == s = t
=============================================================================
