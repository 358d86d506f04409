-------------------------------- MODULE Cas ---------------------------------
(* The content of a CAS as one state machine: Apply(C, s, e) is the state    *)
(* after operation e and the result e returns.                               *)
EXTENDS CasStream
Apply(C, s, e) ==
  IF e.op \in HeapOps THEN HeapApply(C, s, e)
  ELSE IF e.op \in IndexOps THEN IndexApply(C, s, e)
  ELSE IF e.op \in SerOps THEN SerApply(C, s, e)
  ELSE IF e.op \in StreamOps THEN StreamApply(C, s, e)
  ELSE ViewApply(C, s, e)
CasOK(C, s) == /\ HeapTypeOK(C, s) /\ ListsEnd(C, s) /\ IndexOK(C, s) /\ CmpOK(C, s) /\ ViewsOK(C, s) /\ StreamsOK(C, s)
=============================================================================
