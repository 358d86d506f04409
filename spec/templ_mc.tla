---- MODULE Explore ----
\* Every state that the operations A reach within XDepth steps after the recorded beginning XPre,
\* and for every transition the observations O that can be made after it.
EXTENDS @EXT@, Json, TLC
CONSTANTS XDepth, XTail
XA == ndJsonDeserialize("alpha.ndjson")
XO == ndJsonDeserialize("obs.ndjson")
XPre == ndJsonDeserialize("pre.ndjson")
XC == ndJsonDeserialize("cfg.ndjson")[1]
VARIABLES s, p
vars == <<s, p>>
Init == p = <<>> /\ s = FoldLeft(LAMBDA a, e : Apply(XC, a, e).s, Init0(XC), XPre)
Next ==
  /\ Len(p) < XDepth
  /\ \E k \in 1..Len(XA) :
       /\ En(XC, s, XA[k])
       /\ LET a == Apply(XC, s, XA[k])
              seen == SelectSeq([j \in 1..Len(XO) |-> j], LAMBDA j : En(XC, a.s, XO[j]))
          IN /\ s' = a.s
             /\ p' = Append(p, k)
             \* an operation that is refused changes nothing
             /\ Assert(a.r.t = "ok" \/ Kept(XC, s, a.s), <<"a refused operation changes the state", XA[k], s>>)
             /\ PrintT("T" \o ToString(p') \o "#" \o ToString(seen))
\* what went before may matter to an implementation: states that were reached by other last steps count as others
View == <<s, IF Len(p) <= XTail THEN p ELSE SubSeq(p, Len(p) - XTail + 1, Len(p))>>
Inv == @INV@
====
