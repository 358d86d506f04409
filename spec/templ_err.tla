---- MODULE TraceCheck ----
\* Every recorded history must be a behaviour of the specification.
EXTENDS Err, Json
Hist == ndJsonDeserialize("hist.ndjson")
Cfgs == ndJsonDeserialize("cfg.ndjson")
VARIABLES h, i, s, bad
vars == <<h, i, s, bad>>
Init == h \in 1..Len(Hist) /\ i = 0 /\ bad = FALSE /\ s = Init0(Cfgs[Hist[h].c])
Next ==
  /\ ~bad /\ i < Len(Hist[h].ops)
  /\ LET e == Hist[h].ops[i + 1]
         a == Apply(Cfgs[Hist[h].c], s, e)
         ok == a.r.t = e.rt /\ a.r.v = e.rv
     IN /\ h' = h /\ i' = i + 1 /\ bad' = ~ok
        /\ s' = IF ok THEN a.s ELSE s
        /\ IF ok THEN TRUE ELSE PrintT(<<"BAD", h, i + 1, ToJson(a.r)>>)
View == <<h, i>>

Inv == @INV@
====
