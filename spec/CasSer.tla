------------------------------- MODULE CasSer -------------------------------
(***************************************************************************)
(* Serialization.  What survives a transfer is the graph of nodes reached  *)
(* from the subjects and the index members of every view.                  *)
(*   "bin", "blob" : the graph itself.                                     *)
(*   "xcas" : the graph, with a null element of a string array empty.      *)
(*   "xmi" : the graph, except that an array or list held by a feature     *)
(*           without multipleReferencesAllowed is the value of the         *)
(*           feature: every such feature gets a copy of its own.           *)
(* The members of a view come over in some order, e.obs[v] (handles); a    *)
(* set index may keep another one of several equal structures, e.ost.      *)
(***************************************************************************)
EXTENDS CasView

InlineRanges == {6, 7, 8, 9, 28, 29, 30, 31, 32, 11, 14, 17, 20}
MultiRef(C, f) == f > NBF /\ C.uf[f - NBF].m = 1
Inlined(C, fmt, f) == fmt = "xmi" /\ f > NBF /\ ~MultiRef(C, f) /\ Rng(C, f) \in InlineRanges
ListTails == {2, 4, 6, 8}

\* the members a view's indexes hold: structures covered by no index count too
IxOver(C, t) == { i \in 1..Len(C.ix) : Subsumes(C, IxType(C, i), t) }
Held(C, s, v) == { n \in ToSet(s.vw[v].mem) :
                     \/ IxOver(C, s.fs[n].ty) = {}
                     \/ \E i \in IxOver(C, s.fs[n].ty) : C.ix[i].kind # "set" \/ n \in ToSet(s.vw[v].st[i]) }

\* q: the nodes found so far, [n |-> source node, own |-> a feature's own copy]
Pos(q, n) == IF \E p \in 1..Len(q) : q[p].n = n /\ ~q[p].own
             THEN CHOOSE p \in 1..Len(q) : q[p].n = n /\ ~q[p].own ELSE 0
Visit(q, n) == IF n = 0 \/ Pos(q, n) # 0 THEN q ELSE Append(q, [n |-> n, own |-> FALSE])
RefFeats(C, t) == SelectSeq(FeatSeq(C, t), LAMBDA f : FeatAcc(C, f) = "ref")

\* one child: [q, r] with r the position of the child
Child(q, n, own) == IF n = 0 THEN [q |-> q, r |-> 0]
                    ELSE IF own THEN [q |-> Append(q, [n |-> n, own |-> TRUE]), r |-> Len(q) + 1]
                    ELSE LET q2 == Visit(q, n) IN [q |-> q2, r |-> Pos(q2, n)]
\* the transferred node p of q and the queue extended by its children
Xfer(C, s, fmt, q, p) ==
  LET nd == s.fs[q[p].n]
      own == q[p].own
      k == Kind(C, nd.ty)
      strs(y) == IF y = 0 THEN C.k.empty ELSE y
  IN IF k \in ArrKinds THEN
       IF k = "afs" THEN
         LET z == FoldLeft(LAMBDA a, n : LET c == Child(a.q, n, FALSE) IN [q |-> c.q, el |-> Append(a.el, c.r)],
                           [q |-> q, el |-> <<>>], nd.el)
         IN [q |-> z.q, nd |-> [nd EXCEPT !.el = z.el]]
       ELSE [q |-> q, nd |-> IF k = "astr" /\ fmt \in {"xmi", "xcas"} THEN [nd EXCEPT !.el = [i \in DOMAIN @ |-> strs(@[i])]] ELSE nd]
     ELSE
       LET z == FoldLeft(LAMBDA a, f :
                  LET c == Child(a.q, nd.f[f], Inlined(C, fmt, f) \/ (own /\ f \in ListTails))
                  IN [q |-> c.q, f |-> [a.f EXCEPT ![f] = c.r]],
                  [q |-> q, f |-> nd.f], RefFeats(C, nd.ty))
           f2 == IF own /\ 7 \in DOMAIN nd.f THEN [z.f EXCEPT ![7] = strs(@)] ELSE z.f
       IN [q |-> z.q, nd |-> [nd EXCEPT !.f = f2]]
RECURSIVE XferAll(_, _, _, _, _)
XferAll(C, s, fmt, q, out) ==
  IF Len(out) = Len(q) THEN [q |-> q, out |-> out]
  ELSE LET x == Xfer(C, s, fmt, q, Len(out) + 1)
       IN XferAll(C, s, fmt, x.q, Append(out, x.nd))

PermOf(C, s, v, obs) == /\ \A i \in 1..Len(obs) : obs[i] \in 1..Len(s.h)
                        /\ { s.h[obs[i]] : i \in 1..Len(obs) } = Held(C, s, v)
                        /\ Len(obs) = Cardinality(Held(C, s, v))
Roots(C, s, obs) ==
  FoldLeft(LAMBDA q, v : FoldLeft(LAMBDA a, x : Visit(a, s.h[x]), Visit(q, s.vw[v].sofa), obs[v]),
           <<>>, [v \in 1..Len(s.vw) |-> v])

\* in the new state s2 (nodes only), a choice of representatives for set index i out of members ms
RepsOK(C, s2, i, ms, reps) ==
  /\ ToSet(reps) \subseteq ToSet(ms)
  /\ \A a, b \in 1..Len(reps) : a # b => s2.fs[reps[a]].ty # s2.fs[reps[b]].ty \/ Cmp(C, s2, i, reps[a], reps[b]) # 0
  /\ \A m \in ToSet(ms) : Subsumes(C, IxType(C, i), s2.fs[m].ty) =>
        \E r \in ToSet(reps) : s2.fs[r].ty = s2.fs[m].ty /\ Cmp(C, s2, i, r, m) = 0
  /\ \A r \in ToSet(reps) : Subsumes(C, IxType(C, i), s2.fs[r].ty)

\* the state after loading the transferred graph: handles are the nodes in the order found
Loaded(C, s, fmt, e) ==
  LET x == XferAll(C, s, fmt, Roots(C, s, e.obs), <<>>)
      p(n) == IF n = 0 THEN 0 ELSE Pos(x.q, n)
      s2 == [s EXCEPT !.fs = x.out, !.h = [i \in 1..Len(x.out) |-> i], !.it = <<>>]
  IN [s2 EXCEPT !.vw = [v \in 1..Len(s.vw) |->
        LET ms == [i \in 1..Len(e.obs[v]) |-> p(s.h[e.obs[v][i]])]
        IN [sofa |-> p(s.vw[v].sofa),
            doc |-> IF s.vw[v].doc \in Held(C, s, v) THEN p(s.vw[v].doc) ELSE 0,
            mem |-> ms,
            st |-> [i \in 1..Len(C.ix) |->
                     IF C.ix[i].kind # "set" THEN <<>>
                     ELSE IF RepsOK(C, s2, i, ms, e.ost[v][i]) THEN e.ost[v][i] ELSE <<-1>>]]]]
XNodeOut(C, nd) == IF Kind(C, nd.ty) \in ArrKinds THEN <<nd.ty, Len(nd.el)>> \o nd.el
                  ELSE <<nd.ty>> \o [i \in 1..Len(FeatSeq(C, nd.ty)) |-> nd.f[FeatSeq(C, nd.ty)[i]]]
\* the sequence an iterator over the loaded index goes through: the one seen, if it may
Seen(C, s2, v, i, obs) ==
  LET canon == Arranged(C, s2, i, Members(C, s2, v, i, IxType(C, i)))
  IN IF (\A p \in 1..Len(obs) : obs[p] \in 1..Len(s2.fs)) /\ Admissible(C, s2, i, obs, canon, canon) THEN obs ELSE canon
GraphOut(C, s2, ost) ==
  LET vout(v) == <<s2.vw[v].sofa, s2.vw[v].doc, Len(s2.vw[v].mem)>> \o s2.vw[v].mem
                 \o FoldLeft(LAMBDA a, i : a \o IF C.ix[i].kind = "set"
                                               THEN <<Len(s2.vw[v].st[i])>> \o s2.vw[v].st[i]
                                               ELSE <<Len(Members(C, s2, v, i, IxType(C, i)))>> \o Seen(C, s2, v, i, ost[v][i]),
                             <<>>, [i \in 1..Len(C.ix) |-> i])
  IN FoldLeft(LAMBDA a, v : a \o vout(v), <<Len(s2.vw)>>, [v \in 1..Len(s2.vw) |-> v])
     \o FoldLeft(LAMBDA a, nd : a \o XNodeOut(C, nd), <<>>, s2.fs)
RoundTrip(C, s, e) ==
  IF Len(e.obs) # Len(s.vw) \/ (\E v \in 1..Len(s.vw) : ~PermOf(C, s, v, e.obs[v]))
  THEN Ret(s, R("other-members", <<[v \in 1..Len(s.vw) |-> Cardinality(Held(C, s, v))]>>))
  ELSE LET s2 == Loaded(C, s, e.fmt, e)
           g == GraphOut(C, s2, e.ost)
       IN Ret(IF e.swap = 1 THEN s2 ELSE s, OK(g))
SerOps == {"rt"}
\* a component that knows a part of the types only adds a structure of type e.nt (0: nothing) on the way
Passing(C, s, e) ==
  IF e.nt = 0 THEN RoundTrip(C, s, e)
  ELSE LET a == Create(C, s, e.nt, 1)
           b == Add(C, a.s, 1, Len(a.s.h))
       IN RoundTrip(C, b.s, e)
SerApply(C, s, e) == IF e.fmt = "oots" THEN Passing(C, s, [e EXCEPT !.fmt = "xmi"]) ELSE RoundTrip(C, s, e)
=============================================================================
