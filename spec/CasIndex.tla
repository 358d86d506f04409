------------------------------ MODULE CasIndex ------------------------------
(***************************************************************************)
(* Indexes, iterators and filters.  A view's repository is                 *)
(*   mem : the sequence of nodes added and not removed (with repetitions)  *)
(*   st  : for each set index, its members (one per type and key class)    *)
(* An index definition C.ix[i] is [ty, kind ("sorted"|"set"|"bag"), keys], *)
(* keys a sequence of [f, rev], f = 0 standing for type priority.          *)
(* s.rank lists the annotation and user types by falling priority.         *)
(* s.it: iterators [sq (nodes), pos (0 = not on an element), i, v, mv].    *)
(* Where the declared keys leave the order of two members open, the order  *)
(* the implementation shows (e.obs) is adopted if it is an admissible one. *)
(***************************************************************************)
EXTENDS CasHeap

SortedIx(C, i) == C.ix[i].kind = "sorted"
IxType(C, i) == C.ix[i].ty

RankOf(s, t) == IF \E p \in 1..Len(s.rank) : s.rank[p] = t
                THEN CHOOSE p \in 1..Len(s.rank) : s.rank[p] = t ELSE 0
\* strings: the null string compares like the empty one, whose token is 1
KeyVal(C, s, f, n) == LET v == s.fs[n].f[f]
                      IN IF FeatAcc(C, f) = "str" /\ v = 0 THEN 1 ELSE v
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpK(_, _, _, _, _)
CmpK(C, s, keys, a, b) ==
  IF keys = <<>> THEN 0
  ELSE LET k == Head(keys)
           c0 == IF k.f = 0 THEN Sgn(RankOf(s, s.fs[a].ty), RankOf(s, s.fs[b].ty))
                 ELSE Sgn(KeyVal(C, s, k.f, a), KeyVal(C, s, k.f, b))
           c == IF k.rev = 1 THEN 0 - c0 ELSE c0
       IN IF c # 0 THEN c ELSE CmpK(C, s, Tail(keys), a, b)
Cmp(C, s, i, a, b) == CmpK(C, s, C.ix[i].keys, a, b)

DropAt(sq, p) == SubSeq(sq, 1, p - 1) \o SubSeq(sq, p + 1, Len(sq))
RemoveOne(sq, x) == IF x \in ToSet(sq)
                    THEN DropAt(sq, CHOOSE p \in 1..Len(sq) : sq[p] = x /\ \A q \in 1..(p-1) : sq[q] # x)
                    ELSE sq
Count(sq, x) == Cardinality({ p \in 1..Len(sq) : sq[p] = x })

AddToView(C, s, v, n) ==
  [s EXCEPT !.vw[v].mem = Append(@, n), !.it = <<>>,
            !.vw[v].st = [i \in DOMAIN @ |->
               IF C.ix[i].kind = "set" /\ Subsumes(C, IxType(C, i), s.fs[n].ty)
                  /\ \A m \in ToSet(@[i]) : s.fs[m].ty # s.fs[n].ty \/ Cmp(C, s, i, m, n) # 0
               THEN Append(@[i], n) ELSE @[i]]]
RemFromView(C, s, v, n) ==
  [s EXCEPT !.vw[v].mem = RemoveOne(@, n), !.it = <<>>,
            !.vw[v].st = [i \in DOMAIN @ |-> RemoveOne(@[i], n)]]
Add(C, s, v, x) == IF Node(s, x) = 0 THEN Ret(s, Err("InvalidFSObjectException"))
                   ELSE Ret(AddToView(C, s, v, Node(s, x)), Done)
Rem(C, s, v, x) == IF Node(s, x) = 0 THEN Ret(s, Err("InvalidFSObjectException"))
                   ELSE Ret(RemFromView(C, s, v, Node(s, x)), Done)

\* contents of index i of view v, narrowed to type t
Members(C, s, v, i, t) ==
  LET src == IF C.ix[i].kind = "set" THEN s.vw[v].st[i] ELSE s.vw[v].mem
  IN SelectSeq(src, LAMBDA n : Subsumes(C, t, s.fs[n].ty))
\* the order of insertion refined by the keys: a stable insertion sort
RECURSIVE Ins(_, _, _, _, _)
Ins(C, s, i, sq, n) ==
  IF sq = <<>> THEN <<n>>
  ELSE IF Cmp(C, s, i, Last1(sq), n) <= 0 THEN Append(sq, n)
  ELSE Append(Ins(C, s, i, SubSeq(sq, 1, Len(sq) - 1), n), Last1(sq))
Sorted(C, s, i, sq) == FoldLeft(LAMBDA a, n : Ins(C, s, i, a, n), <<>>, sq)
Arranged(C, s, i, sq) == IF SortedIx(C, i) THEN Sorted(C, s, i, sq) ELSE sq

\* obs (nodes) is an admissible order of what the canonical sequence canon says, drawn from cand
Admissible(C, s, i, obs, canon, cand) ==
  /\ Len(obs) = Len(canon)
  /\ \A p \in 1..Len(obs) : Count(obs, obs[p]) <= Count(cand, obs[p])
  /\ SortedIx(C, i) => \A p \in 1..Len(obs) : Cmp(C, s, i, obs[p], canon[p]) = 0

----------------------------------------------------------------------------
(* Filters: [b |-> condition holds, er |-> error raised while evaluating] *)
FV(b) == [b |-> b, er |-> ""]
FE(er) == [b |-> FALSE, er |-> er]
RECURSIVE Walk(_, _, _, _)
Walk(C, s, n, p) ==             \* follow reference features p from n: [b, er, n]
  IF p = <<>> THEN [er |-> "", n |-> n]
  ELSE LET er == AccessErr(C, s, n, Head(p), "ref")
       IN IF er # "" THEN [er |-> er, n |-> 0] ELSE Walk(C, s, s.fs[n].f[Head(p)], Tail(p))
Front1(sq) == SubSeq(sq, 1, Len(sq) - 1)
Rel(c, a, b) == CASE c = "eq" -> a = b [] c = "gt" -> a > b [] c = "lt" -> a < b
RECURSIVE FEval(_, _, _, _)
FEval(C, s, n, f) ==
  CASE f.o = "not" -> LET a == FEval(C, s, n, f.a) IN IF a.er # "" THEN a ELSE FV(~a.b)
    [] f.o = "and" -> LET a == FEval(C, s, n, f.a)
                      IN IF a.er # "" \/ ~a.b THEN a ELSE FEval(C, s, n, f.b)
    [] f.o = "or"  -> LET a == FEval(C, s, n, f.a)
                      IN IF a.er # "" \/ a.b THEN a ELSE FEval(C, s, n, f.b)
    [] f.o = "type" -> IF n = 0 THEN FE("InvalidFSObjectException")
                       ELSE FV(IF f.sub = 1 THEN Subsumes(C, f.t, s.fs[n].ty) ELSE f.t = s.fs[n].ty)
    [] f.o = "match" -> LET w == Walk(C, s, n, f.p) IN IF w.er # "" THEN FE(w.er) ELSE FEval(C, s, w.n, f.a)
    [] OTHER ->
         LET w == Walk(C, s, n, Front1(f.p))
             g == Last1(f.p)
             er == IF w.er # "" THEN w.er ELSE AccessErr(C, s, w.n, g, f.o)
         IN IF er # "" THEN FE(er)
            ELSE IF f.o = "str" THEN FV(KeyVal(C, s, g, w.n) = f.y)
            ELSE FV(Rel(f.c, s.fs[w.n].f[g], f.y))

----------------------------------------------------------------------------
(* Iterators *)
BeginOf(s, n) == s.fs[n].f[F_BEGIN]
EndOf(s, n) == s.fs[n].f[F_END]
RECURSIVE Unamb(_, _, _)
Unamb(s, sq, last) ==           \* greedy: skip what starts before the end of the last one returned
  IF sq = <<>> THEN <<>>
  ELSE IF last = 0 \/ BeginOf(s, Head(sq)) >= EndOf(s, last)
       THEN <<Head(sq)>> \o Unamb(s, Tail(sq), Head(sq))
       ELSE Unamb(s, Tail(sq), last)
\* annotations covered by x, in index order: those not before x that begin inside its span
Covered(C, s, i, sq, x) ==
  SelectSeq(sq, LAMBDA n : n # x /\ Cmp(C, s, i, n, x) >= 0
                           /\ BeginOf(s, n) >= BeginOf(s, x) /\ BeginOf(s, n) < EndOf(s, x))
IxErr(C, e) ==
  IF e.n = 0 THEN "InvalidIndexIDException"
  ELSE IF e.t # 0 /\ ~Subsumes(C, IxType(C, e.n), e.t) THEN "WrongFSTypeForIndexException" ELSE ""
NType(C, e) == IF e.t = 0 THEN IxType(C, e.n) ELSE e.t

MkIter(C, s, e) ==
  LET e2 == IF e.k = "anix" \/ "viaAnn" \in DOMAIN e THEN [e EXCEPT !.n = 1] ELSE e
      er == IF (e.k = "anix" \/ "viaAnn" \in DOMAIN e) /\ ~Subsumes(C, ANNOT, e.t)
            THEN "InvalidIndexObjectException" ELSE IxErr(C, e2)
      i == e2.n
      v == IF "viaAnn" \in DOMAIN e THEN e.w ELSE e.w
      base == Arranged(C, s, i, Members(C, s, v, i, NType(C, e2)))
      fv == [p \in 1..Len(base) |-> IF e.k = "filter" THEN FEval(C, s, base[p], e.flt) ELSE FV(FALSE)]
      ers == SelectSeq(fv, LAMBDA q : q.er # "")
      keep == SelectSeq([p \in 1..Len(base) |-> p], LAMBDA p : ~fv[p].b)
      x == IF e.k \in {"sub", "subu"} THEN Node(s, e.x) ELSE 0
      canon ==
        CASE e.k \in {"plain", "anix"} -> base
          [] e.k = "filter" -> [p \in 1..Len(keep) |-> base[keep[p]]]
          [] e.k = "tset" -> SelectSeq(base, LAMBDA n : s.fs[n].ty \in ToSet(e.ts))
          [] e.k = "sub" -> Covered(C, s, i, base, x)
          [] e.k = "subu" -> Unamb(s, Covered(C, s, i, base, x), 0)
          [] e.k = "una" -> Unamb(s, base, 0)
      cand == IF e.k = "subu" THEN Covered(C, s, i, base, x)
              ELSE IF e.k = "una" THEN base ELSE canon
      hasObs == "obs" \in DOMAIN e /\ \A p \in 1..Len(e.obs) : e.obs[p] \in 1..Len(s.h)
      obsN == IF hasObs THEN [p \in 1..Len(e.obs) |-> s.h[e.obs[p]]] ELSE <<>>
      sq == IF hasObs /\ Admissible(C, s, i, obsN, canon, cand) THEN obsN ELSE canon
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF e.k = "tset" /\ \E t \in ToSet(e.ts) : ~Subsumes(C, NType(C, e2), t)
          THEN Ret(s, Err("WrongFSTypeForIndexException"))
     ELSE IF ers # <<>> THEN Ret(s, Err(ers[1].er))
     ELSE Ret([s EXCEPT !.it = Append(@, [sq |-> sq, pos |-> IF sq = <<>> THEN 0 ELSE 1, i |-> i, k |-> e.k])],
              OK([p \in 1..Len(sq) |-> Handle(s, sq[p])]))

Cur(s, q) == LET I == s.it[q] IN IF I.pos = 0 THEN 0 ELSE Handle(s, I.sq[I.pos])
MoveIt(s, q, p) == LET s1 == [s EXCEPT !.it[q].pos = IF p \in 1..Len(s.it[q].sq) THEN p ELSE 0]
                   IN Ret(s1, OK(<<Cur(s1, q)>>))
IterOp(C, s, e) ==
  LET I == s.it[e.i] IN
  CASE e.op = "inext" -> MoveIt(s, e.i, I.pos + 1)
    [] e.op = "iprev" -> MoveIt(s, e.i, I.pos - 1)
    [] e.op = "ifirst" -> MoveIt(s, e.i, 1)
    [] e.op = "ilast" -> MoveIt(s, e.i, Len(I.sq))
    [] e.op = "imoveto" ->
         LET ge == { p \in 1..Len(I.sq) : Cmp(C, s, I.i, I.sq[p], Node(s, e.x)) >= 0 }
         IN MoveIt(s, e.i, IF ge = {} THEN 0 ELSE CHOOSE p \in ge : \A q \in ge : p <= q)
    [] e.op = "iget" -> Ret(s, OK(<<Cur(s, e.i)>>))
    [] e.op = "ipeekn" -> Ret(s, OK(<<IF I.pos + 1 \in 1..Len(I.sq) THEN Handle(s, I.sq[I.pos + 1]) ELSE 0>>))
    [] e.op = "ipeekp" -> Ret(s, OK(<<IF I.pos - 1 \in 1..Len(I.sq) THEN Handle(s, I.sq[I.pos - 1]) ELSE 0>>))
    [] e.op = "icopy" -> Ret([s EXCEPT !.it = Append(@, I)], Done)
    [] e.op = "irev" -> Ret(s, OK([p \in 1..Len(I.sq) |-> Handle(s, I.sq[Len(I.sq) + 1 - p])]))

----------------------------------------------------------------------------
(* Index queries *)
Size(C, s, e) == LET er == IxErr(C, e)
                 IN IF er # "" THEN Ret(s, Err(er))
                    ELSE Ret(s, OK(<<Len(Members(C, s, e.w, e.n, NType(C, e)))>>))
\* find: an equivalent member (sorted, set: equal keys; bag: the structure itself), if any
Find(C, s, e) ==
  LET er == IxErr(C, e)
      x == Node(s, e.x)
      ms == ToSet(Members(C, s, e.w, e.n, NType(C, e)))
      eq == IF C.ix[e.n].kind = "bag" THEN ms \cap {x} ELSE { m \in ms : Cmp(C, s, e.n, m, x) = 0 }
      obs == IF "obs" \in DOMAIN e /\ Len(e.obs) = 1 /\ e.obs[1] \in 1..Len(s.h) /\ s.h[e.obs[1]] \in eq
             THEN s.h[e.obs[1]] ELSE IF eq = {} THEN 0 ELSE CHOOSE m \in eq : TRUE
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF x = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE Ret(s, OK(<<Handle(s, obs)>>))
ValidIx(C, s, e) == Ret(s, OK(<<B2I(IxErr(C, e) = "")>>))

\* priorities: the order the implementation shows must be a total order of all
\* types of the index that respects every declared chain
PrioTypes(C, n) == { t \in {TOP, ANNBASE, ANNOT, DOCANN, 6, 7, 8, 9, 28, 29, 30, 31, 32} \cup { u \in (NBT+1)..NT(C) : Kind(C, u) = "fs" } :
                       Subsumes(C, IxType(C, n), t) }
PrioOK(C, n, o) == /\ ToSet(o) = PrioTypes(C, n) /\ Len(o) = Cardinality(PrioTypes(C, n))
                /\ \A c \in ToSet(C.pr) : \A a \in 1..Len(c) : \A b \in (a+1)..Len(c) :
                      \A p, q \in 1..Len(o) : o[p] = c[a] /\ o[q] = c[b] => p < q
Prio(C, s, e) == IF "obs" \in DOMAIN e /\ PrioOK(C, e.n, e.obs)
                 THEN Ret([s EXCEPT !.rank = e.obs], OK(e.obs))
                 ELSE Ret([s EXCEPT !.rank = SetToSeq(PrioTypes(C, e.n))], Err("an order respecting the chains"))

IterOps == {"inext", "iprev", "ifirst", "ilast", "imoveto", "iget", "ipeekn", "ipeekp", "icopy", "irev"}
IndexOps == {"idrop", "add", "rem", "it", "size", "find", "validix", "ixtype", "prio"} \cup IterOps
IndexApply(C, s, e) ==
  CASE e.op = "add" -> Add(C, s, e.w, e.x)
    [] e.op = "rem" -> Rem(C, s, e.w, e.x)
    [] e.op = "it" -> MkIter(C, s, e)
    [] e.op = "size" -> Size(C, s, e)
    [] e.op = "find" -> Find(C, s, e)
    [] e.op = "validix" -> ValidIx(C, s, e)
    [] e.op = "ixtype" -> IF e.n = 0 THEN Ret(s, Err("InvalidIndexIDException")) ELSE Ret(s, OK(<<IxType(C, e.n)>>))
    [] e.op = "prio" -> Prio(C, s, e)
    [] e.op = "idrop" -> Ret([s EXCEPT !.it = <<>>], Done)
    [] OTHER -> IterOp(C, s, e)

----------------------------------------------------------------------------
(* Invariants *)
IndexOK(C, s) == \A v \in 1..Len(s.vw) : \A i \in 1..Len(C.ix) :
  /\ C.ix[i].kind = "set" =>
       LET st == s.vw[v].st[i] IN
         /\ \A p, q \in 1..Len(st) : p # q => s.fs[st[p]].ty # s.fs[st[q]].ty \/ Cmp(C, s, i, st[p], st[q]) # 0
         /\ ToSet(st) \subseteq ToSet(s.vw[v].mem)
  \* every subtype's narrowing is a part of the whole, and sizes add up
  /\ LET ms == Members(C, s, v, i, IxType(C, i)) IN
       \A t \in 1..NT(C) : Subsumes(C, IxType(C, i), t) =>
          Members(C, s, v, i, t) = SelectSeq(ms, LAMBDA n : Subsumes(C, t, s.fs[n].ty))
\* the comparator is a total preorder on the indexed structures
CmpOK(C, s) == \A v \in 1..Len(s.vw) : \A i \in 1..Len(C.ix) :
  LET ms == ToSet(Members(C, s, v, i, IxType(C, i))) IN
    \A a, b \in ms : Cmp(C, s, i, a, b) = 0 - Cmp(C, s, i, b, a) /\
      \A c \in ms : Cmp(C, s, i, a, b) <= 0 /\ Cmp(C, s, i, b, c) <= 0 => Cmp(C, s, i, a, c) <= 0
=============================================================================
