------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* Analysis engines: life cycle, aggregates and their flow, capabilities,  *)
(* sofa mappings.  A configuration C describes a tree of components:       *)
(*  n: the nodes, 1 the root, each                                         *)
(*     [p: primitive?, par: enclosing aggregate, flow: delegates in flow   *)
(*      order, ft: 1 fixed / 2 capability-language flow, caps: sequence of *)
(*      [ls: languages, i: inputs, o: outputs, sof: any sofas?],           *)
(*      maps: sequence of <<sofa name here, sofa name in the aggregate>>,  *)
(*      dll: 0 good / 1 missing / 2 no annotator in it, inst: CASes wanted]*)
(*  lang: base language of each language (1 = unspecified)                 *)
(*  ns: number of sofa names (1 = the initial view's)                      *)
(* Types and features are numbers >= 1, 0 stands for an unknown one.       *)
(* Languages are numbers >= 1, 0 stands for an invalid one.                *)
(*                                                                         *)
(* State: eng (0 none, 1 initialized, 2 destroyed), cs: the CASes, each    *)
(* [nm: names of the existing sofas, lg: document language of each view],  *)
(* po: the CAS pool of each component [n: CASes wanted, -1 = no pool, seen:*)
(* CASes handed out so far, numbered 1.., used: those in use, c: contents  *)
(* of those seen], left and prod: CASes the root, a CAS multiplier, will   *)
(* still produce / has produced for the document it was given last.        *)
(* Annotators are part of the environment: e.scr says what they do. Every  *)
(* call that reaches an annotator is recorded in the result of the         *)
(* operation, in order.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
OK(v) == [t |-> "ok", v |-> v]
Err(x) == [t |-> x, v |-> <<>>]
Ret(s, r) == [s |-> s, r |-> r]
NC(C) == Len(C.n)
Nd(C, k) == C.n[k]
SortN(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
INITM == 1  TSIM == 2  DESTM == 3  RECM == 4  PROCM == 5  BATCHM == 6  COLLM == 7

----------------------------------------------------------------------------
(* Sofa names *)
MapOne(C, k, x) == LET m == Nd(C, k).maps IN
  IF \E i \in DOMAIN m : m[i][1] = x THEN m[CHOOSE i \in DOMAIN m : m[i][1] = x /\ \A j \in 1..(i-1) : m[j][1] # x][2] ELSE x
RECURSIVE MapS(_, _, _)
MapS(C, k, x) == IF Nd(C, k).par = 0 THEN x ELSE MapS(C, Nd(C, k).par, MapOne(C, k, x))
SofaAware(C, k) == \E c \in Range(Nd(C, k).caps) : c.sof = 1

----------------------------------------------------------------------------
(* Capabilities: the outputs of node k for a language *)
Caps(C, k) == Nd(C, k).caps
\* outputs declared for language l, and whether any capability names it
Named(C, k, l) == \E c \in Range(Caps(C, k)) : l \in Range(c.ls)
D(C, k, l) == UNION {Range(c.o) : c \in {d \in Range(Caps(C, k)) : l \in Range(d.ls)}}
Base(C, l) == IF l = 0 THEN 0 ELSE C.lang[l]
IsTerr(C, l) == l # 0 /\ C.lang[l] # l
Langs(C) == 1..Len(C.lang)
\* declarations for the unspecified language hold for every language
S1(C, k, l) == IF l # 1 /\ D(C, k, l) # {} /\ Named(C, k, 1) THEN D(C, k, l) \cup D(C, k, 1) ELSE D(C, k, l)
\* a territory has its language's outputs; a language has those of all its territories
InMap(C, k, l) == Named(C, k, l) \/ \E m \in Langs(C) : IsTerr(C, m) /\ Named(C, k, m) /\ Base(C, m) = l
S2(C, k, l) ==
  IF IsTerr(C, l) THEN S1(C, k, l) \cup S1(C, k, Base(C, l))
  ELSE S1(C, k, l) \cup UNION {S1(C, k, m) : m \in {x \in Langs(C) : IsTerr(C, x) /\ Base(C, x) = l /\ Named(C, k, x)}}
\* what is found for document language l: a set of outputs, or nothing at all
Found(C, k, l) == (l # 0 /\ InMap(C, k, l)) \/ (IsTerr(C, l) /\ Named(C, k, Base(C, l))) \/ Named(C, k, 1)
Lookup(C, k, l) ==
  IF l # 0 /\ InMap(C, k, l) THEN S2(C, k, l)
  ELSE IF IsTerr(C, l) /\ Named(C, k, Base(C, l)) THEN S1(C, k, Base(C, l))
  ELSE IF Named(C, k, 1) THEN D(C, k, 1)
  ELSE {}
NoOut(C, k, l) == Found(C, k, l) /\ Lookup(C, k, l) = {}
AllOut(C, k) == UNION {Range(c.o) : c \in Range(Caps(C, k))}
\* defects of capabilities found when a component is initialized
BadCaps(C, k) == \E c \in Range(Caps(C, k)) : c.ls # <<>> /\ (0 \in Range(c.ls) \/ 0 \in Range(c.i) \/ 0 \in Range(c.o))
BadOut(C, k) == 0 \in AllOut(C, k)

----------------------------------------------------------------------------
(* Annotators: a = node, m = method.  st = [scr, tr, cas]; the first entry  *)
(* of the script for (a, m) says what the call does.                        *)
Entry(st, a, m) == LET S == {i \in DOMAIN st.scr : st.scr[i].a = a /\ st.scr[i].m = m} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Use(st, i) == IF i = 0 THEN st ELSE [st EXCEPT !.scr = RemoveAt(@, i)]
Effect(st, i) == IF i = 0 THEN 0 ELSE st.scr[i].r
Emit(st, ev) == [st EXCEPT !.tr = @ \o <<Len(ev)>> \o ev]
\* result: rc = error code returned or thrown, exc = thrown?
Call(st, a, m) == LET i == Entry(st, a, m)  r == Effect(st, i) IN
  [st |-> Emit(Use(st, i), <<a, m>>), rc |-> IF r < 0 THEN -r ELSE r]
Res(st, rc) == [st |-> st, rc |-> rc]

\* reconfigure, batch and collection completion, destroy: every component once per entry of the
\* flow; the last error is reported
RECURSIVE Walk(_, _, _, _), WalkSeq(_, _, _, _, _)
Walk(C, st, k, m) ==
  IF Nd(C, k).p = 1 THEN Call(st, k, m)
  ELSE WalkSeq(C, Res(st, 0), IF m = DESTM THEN Reverse(Nd(C, k).flow) ELSE Nd(C, k).flow, 1, m)
WalkSeq(C, r, q, i, m) ==
  IF i > Len(q) THEN r
  ELSE LET x == Walk(C, r.st, q[i], m) IN WalkSeq(C, Res(x.st, IF x.rc # 0 THEN x.rc ELSE r.rc), q, i + 1, m)

\* initialization: a component that fails is shut down, and so are those before it
RECURSIVE InitN(_, _, _), InitSeq(_, _, _, _)
InitN(C, st, k) ==
  IF Nd(C, k).p = 1 THEN
    IF Nd(C, k).dll # 0 THEN Res(st, -1)
    ELSE LET a == Call(st, k, INITM)
             fail(x, rc) == Res(Call(x, k, DESTM).st, rc)
         IN IF a.rc # 0 THEN fail(a.st, a.rc)
            ELSE IF BadCaps(C, k) THEN fail(a.st, -1)
            ELSE LET b == Call(a.st, k, TSIM) IN
                 IF b.rc # 0 THEN fail(b.st, b.rc)
                 ELSE IF BadOut(C, k) THEN fail(b.st, -1)
                 ELSE b
  ELSE LET a == InitSeq(C, st, k, 1) IN
       IF a.rc # 0 THEN a
       ELSE IF BadOut(C, k) THEN Res(Walk(C, a.st, k, DESTM).st, -1)
       ELSE a
InitSeq(C, st, k, i) ==
  LET q == Nd(C, k).flow
      undo(x, n) == WalkSeq(C, Res(x, 0), Reverse(SubSeq(q, 1, n)), 1, DESTM).st
  IN IF i > Len(q) THEN Res(st, 0)
     ELSE LET a == InitN(C, st, q[i]) IN
          IF a.rc # 0 THEN Res(undo(a.st, i - 1), a.rc)
          ELSE IF BadCaps(C, q[i]) THEN Res(undo(a.st, i), -1)
          ELSE InitSeq(C, a.st, k, i + 1)

\* processing: st.cas is the CAS
ViewGet(C, st, k, n) == LET x == MapS(C, k, n) IN IF x = 1 \/ x \in st.cas.nm THEN x ELSE -1
RECURSIVE Acts(_, _, _, _, _, _)
Acts(C, st, k, v, q, out) ==       \* what the annotator does in process: results of its actions
  IF q = <<>> THEN [st |-> st, v |-> out]
  ELSE LET a == Head(q) IN
       CASE a.k = "gv" -> Acts(C, st, k, v, Tail(q), Append(out, ViewGet(C, st, k, a.n)))
         [] a.k = "cv" -> LET x == MapS(C, k, a.n)  bad == x = 1 \/ x \in st.cas.nm IN
              Acts(C, IF bad THEN st ELSE [st EXCEPT !.cas.nm = @ \cup {x}], k, v, Tail(q), Append(out, IF bad THEN -1 ELSE x))
         [] a.k = "tx" -> LET bad == v # 1 \/ 1 \in st.cas.nm IN
              Acts(C, IF bad THEN st ELSE [st EXCEPT !.cas.nm = @ \cup {1}], k, v, Tail(q), Append(out, IF bad THEN -1 ELSE 1))
         [] OTHER -> Acts(C, [st EXCEPT !.cas.lg[v] = a.n], k, v, Tail(q), Append(out, 0))
PRes(st, rc, exc) == [st |-> st, rc |-> rc, exc |-> exc]
Emits(st, i) == IF i = 0 THEN 0 ELSE st.scr[i].emit
ProcPrim(C, st, k, v, rs) ==
  LET i == Entry(st, k, PROCM)
      r == Effect(st, i)
      w == Acts(C, Use(st, i), k, v, IF i = 0 THEN <<>> ELSE st.scr[i].acts, <<>>)
      ev == <<k, PROCM, v, Cardinality(rs)>> \o SortN(rs) \o w.v
  IN PRes(Emit(w.st, ev), IF r < 0 THEN -r ELSE r, r < 0)
\* the view a delegate gets: the current one if it deals with sofas itself, else the one its
\* default view is mapped to
KidView(C, k, v) == IF SofaAware(C, k) THEN v ELSE MapS(C, k, 1)
RECURSIVE ProcN(_, _, _, _, _), ProcSeq(_, _, _, _, _, _, _)
ProcN(C, st, k, v, rs) == IF Nd(C, k).p = 1 THEN ProcPrim(C, st, k, v, rs) ELSE ProcSeq(C, st, k, v, rs, 1, 0)
ProcSeq(C, st, k, v, rs, i, rc) ==
  LET q == Nd(C, k).flow IN
  IF i > Len(q) THEN PRes(st, rc, FALSE)
  ELSE LET d == q[i]
           l == st.cas.lg[v]
           none == NoOut(C, d, l)
           need == IF none THEN {} ELSE rs \cap Lookup(C, d, l)
       IN IF ~(none \/ need # {} \/ Nd(C, k).ft = 1) THEN ProcSeq(C, st, k, v, rs, i + 1, rc)
          ELSE LET w == KidView(C, d, v) IN
               IF ~SofaAware(C, d) /\ w \notin st.cas.nm THEN PRes(st, -1, FALSE)
               ELSE LET r == ProcN(C, st, d, w, need) IN
                    IF r.exc THEN r
                    ELSE ProcSeq(C, r.st, k, v, IF r.rc = 0 THEN rs \ need ELSE rs, i + 1, IF r.rc # 0 THEN r.rc ELSE rc)

----------------------------------------------------------------------------
NewCas(C) == [nm |-> {}, lg |-> [x \in 1..C.ns |-> 1]]
NoPool == [n |-> -1, seen |-> 0, used |-> {}, c |-> <<>>]
Init0(C) == [eng |-> 0, cs |-> <<>>, po |-> [k \in 1..NC(C) |-> NoPool], left |-> 0, prod |-> 0]
\* the pools a successful initialization makes: one for each component in use that asks for CASes
RECURSIVE InUse(_, _)
InUse(C, k) == {k} \cup UNION {InUse(C, d) : d \in Range(Nd(C, k).flow)}
Pools(C) == [k \in 1..NC(C) |-> IF Nd(C, k).p = 1 /\ Nd(C, k).inst > 0 /\ k \in InUse(C, 1) THEN [NoPool EXCEPT !.n = Nd(C, k).inst] ELSE NoPool]
Out(st, rc) == <<IF rc = 0 THEN 0 ELSE rc>> \o st.tr
St0(e) == [scr |-> e.scr, tr |-> <<>>, cas |-> <<>>]
Illegal(s) == Ret(s, OK(<<-1>>))
EngineOps == {"create", "delete", "init", "reconf", "batch", "coll", "destroy", "isinit", "live"}
EngineApply(C, s, e) ==
  CASE e.op = "create" ->
        LET r == InitN(C, St0(e), 1) 
        IN Ret(IF r.rc = 0 THEN [Init0(C) EXCEPT !.eng = 1, !.po = Pools(C)] ELSE Init0(C), OK(Out(r.st, r.rc)))
    [] e.op = "delete" ->
        LET r == IF s.eng = 1 THEN Walk(C, St0(e), 1, DESTM) ELSE Res(St0(e), 0) IN Ret(Init0(C), OK(Out(r.st, 0)))
    [] e.op = "init" -> Illegal(s)
    [] e.op \in {"reconf", "batch", "coll", "destroy"} ->
        IF s.eng # 1 THEN Illegal(s)
        ELSE LET r == Walk(C, St0(e), 1, CASE e.op = "reconf" -> RECM [] e.op = "batch" -> BATCHM [] e.op = "coll" -> COLLM [] OTHER -> DESTM)
             IN Ret(IF e.op = "destroy" THEN [s EXCEPT !.eng = 2] ELSE s, OK(Out(r.st, r.rc)))
    [] e.op = "isinit" -> Ret(s, OK(<<IF s.eng = 1 THEN 1 ELSE 0>>))
    [] e.op = "live" -> Ret(s, OK(<<0>>))          \* asked only when there is no engine

\* text: the application sets the text of the initial view, unless it has one
CasOps == {"newcas", "text", "mkview", "getview", "views", "rescas", "setlang"}
CasApply(C, s, e) ==
  CASE e.op = "newcas" -> Ret([s EXCEPT !.cs = Append(@, NewCas(C))], OK(<<Len(s.cs) + 1>>))
    [] e.op = "text" -> IF 1 \in s.cs[e.c].nm THEN Ret(s, OK(<<-1>>)) ELSE Ret([s EXCEPT !.cs[e.c].nm = @ \cup {1}], OK(<<1>>))
    [] e.op = "mkview" -> IF e.n = 1 \/ e.n \in s.cs[e.c].nm THEN Ret(s, Err("DuplicateSofaNameException"))
                          ELSE Ret([s EXCEPT !.cs[e.c].nm = @ \cup {e.n}], OK(<<e.n>>))
    [] e.op = "getview" -> IF e.n # 1 /\ e.n \notin s.cs[e.c].nm THEN Ret(s, Err("DuplicateSofaNameException")) ELSE Ret(s, OK(<<e.n>>))
    [] e.op = "views" -> Ret(s, OK(SortN(s.cs[e.c].nm)))
    [] e.op = "rescas" -> Ret([s EXCEPT !.cs[e.c] = NewCas(C)], OK(<<0>>))
    [] e.op = "setlang" -> Ret([s EXCEPT !.cs[e.c].lg[e.n] = e.lg], OK(<<0>>))

ProcApply(C, s, e) ==
  IF s.eng # 1 THEN Illegal(s)
  ELSE LET st == [St0(e) EXCEPT !.cas = s.cs[e.c]]
           rs == IF e.all = 1 THEN AllOut(C, 1) ELSE ToSet(e.rs)
           r == ProcN(C, st, 1, e.n, rs)
           s0 == [s EXCEPT !.cs[e.c] = r.st.cas]
           s1 == IF Nd(C, 1).p = 1 THEN [s0 EXCEPT !.left = Emits(st, Entry(st, 1, PROCM)), !.prod = 0] ELSE s0
       IN Ret(s1, [t |-> IF r.exc THEN "EXC" ELSE "ok", v |-> Out(r.st, r.rc)])

----------------------------------------------------------------------------
(* CAS pools and multipliers *)
PoolOf(s, k) == s.po[k]
FreeSeen(q) == (1..q.seen) \ q.used
HasFree(q) == q.n >= 0 /\ Cardinality(q.used) < q.n
\* any free CAS may be handed out: x, or a new one; hint = the one that was
Pick(q, hint) ==
  LET new == IF q.seen < q.n THEN {q.seen + 1} ELSE {}
      S == FreeSeen(q) \cup new
  IN IF hint \in S THEN hint ELSE CHOOSE x \in S : \A y \in S : x <= y
EmptyP == [nm |-> {}, len |-> 0]
Take(q, x) == [q EXCEPT !.seen = IF x > q.seen THEN x ELSE q.seen, !.used = @ \cup {x}, !.c = IF x > q.seen THEN Append(@, EmptyP) ELSE @]
Hint(e) == IF Len(e.rv) = 1 THEN e.rv[1] ELSE 0
PoolOps == {"pget", "prel", "prelx", "prelo", "pview", "pviews", "ptext", "plen", "ihn", "inx"}
PoolApply(C, s, e) ==
  CASE e.op = "pget" ->
        LET q == s.po[e.k]  x == Pick(q, Hint(e)) IN
        IF HasFree(q) THEN Ret([s EXCEPT !.po[e.k] = Take(q, x)], OK(<<x>>)) ELSE Ret(s, Err("CASPoolException"))
    \* released through its view n; only a CAS in use is released, and then it is empty
    [] e.op = "prel" ->
        LET q == s.po[e.k] IN
        IF e.n # 1 /\ e.n \notin q.c[e.x].nm THEN Ret(s, Err("DuplicateSofaNameException"))
        ELSE IF e.x \in q.used THEN Ret([s EXCEPT !.po[e.k] = [q EXCEPT !.used = @ \ {e.x}, !.c[e.x] = EmptyP]], OK(<<0>>))
        ELSE Ret(s, OK(<<0>>))
    [] e.op \in {"prelx", "prelo"} -> Ret(s, OK(<<0>>))       \* not a CAS of this pool
    [] e.op = "pview" ->
        LET q == s.po[e.k] IN
        IF e.n = 1 \/ e.n \in q.c[e.x].nm THEN Ret(s, Err("DuplicateSofaNameException"))
        ELSE Ret([s EXCEPT !.po[e.k].c[e.x].nm = @ \cup {e.n}], OK(<<e.n>>))
    [] e.op = "pviews" -> Ret(s, OK(SortN(s.po[e.k].c[e.x].nm)))
    [] e.op = "ptext" -> IF 1 \in s.po[e.k].c[e.x].nm THEN Ret(s, OK(<<-1>>))
                         ELSE Ret([s EXCEPT !.po[e.k].c[e.x] = [nm |-> @.nm \cup {1}, len |-> e.len]], OK(<<1>>))
    [] e.op = "plen" -> LET q == s.po[e.k].c[e.x] IN Ret(s, OK(<<q.len, IF 1 \in q.nm THEN 1 ELSE 0>>))
    [] e.op = "ihn" -> Ret(s, OK(<<IF Nd(C, 1).p = 1 /\ s.left > 0 THEN 1 ELSE 0>>))
    [] e.op = "inx" ->                                          \* asked of a primitive only while hasNext
        LET q == s.po[1]  x == Pick(q, Hint(e)) IN
        IF Nd(C, 1).p = 0 THEN Ret(s, Err("ExcInvalidRequest"))
        ELSE IF ~HasFree(q) THEN Ret(s, Err("CASPoolException"))
        ELSE LET q1 == Take(q, x) IN
             \* the multiplier's document: its number as length
             Ret([s EXCEPT !.po[1] = [q1 EXCEPT !.c[x] = [nm |-> {1}, len |-> s.prod + 1]], !.left = @ - 1, !.prod = @ + 1], OK(<<x>>))
\* processing for new CASes: a failure is an exception of the iterator's kind
PnApply(C, s, e) ==
  IF s.eng # 1 THEN Ret(s, OK(<<-2>>))
  ELSE LET a == ProcApply(C, s, [e EXCEPT !.op = "process"]) IN
       IF a.r.t = "EXC" \/ a.r.v[1] = 0 THEN a ELSE Ret(a.s, OK(<<-2>> \o Tail(a.r.v)))

PoolOK(C, s) == \A k \in 1..NC(C) : LET q == s.po[k] IN
  /\ q.n >= 0 => Cardinality(q.used) <= q.n /\ q.seen <= q.n /\ q.used \subseteq 1..q.seen /\ Len(q.c) = q.seen
  /\ \A x \in FreeSeen(q) : q.c[x] = EmptyP

Apply(C, s, e) ==
  IF e.op \in EngineOps THEN EngineApply(C, s, e)
  ELSE IF e.op \in CasOps THEN CasApply(C, s, e)
  ELSE IF e.op \in PoolOps THEN PoolApply(C, s, e)
  ELSE IF e.op = "pn" THEN PnApply(C, s, e)
  ELSE ProcApply(C, s, e)
=============================================================================
