------------------------------ MODULE CasHeap -------------------------------
(***************************************************************************)
(* Feature structures, arrays and lists: a heap of nodes.  A node is       *)
(*   [ty |-> type, f |-> function from its appropriate features to values, *)
(*    el |-> array elements]                                               *)
(* Values: integers for int/byte/short/bool, tokens for string/float/      *)
(* double/long (0 = default / null string), node numbers for references    *)
(* (0 = null).  s.h maps the handles a client holds to nodes.              *)
(***************************************************************************)
EXTENDS CasTypes

NewNode(C, t) == [ty |-> t, f |-> [x \in FeatSet(C, t) |-> 0], el |-> <<>>]
Alloc(s, nd) == [s EXCEPT !.fs = Append(@, nd)]      \* the new node is Len(s.fs)+1
Handle(s, n) ==                                       \* the handle of node n, 0 if none
  IF \E i \in 1..Len(s.h) : s.h[i] = n
  THEN CHOOSE i \in 1..Len(s.h) : s.h[i] = n /\ \A j \in 1..(i-1) : s.h[j] # n
  ELSE 0
AddH(s, n) == [s EXCEPT !.h = Append(@, n)]
\* hand node n to the client: result [s, v]
Give(s, n) == IF n = 0 THEN [s |-> s, v |-> 0]
              ELSE LET i == Handle(s, n)
                   IN IF i # 0 THEN [s |-> s, v |-> i]
                      ELSE [s |-> AddH(s, n), v |-> Len(s.h) + 1]
Ret(s, r) == [s |-> s, r |-> r]
RetGive(s, n) == LET g == Give(s, n) IN Ret(g.s, OK(<<g.v>>))
Node(s, x) == IF x = 0 THEN 0 ELSE s.h[x]

\* an operation addressed to a view that does not exist goes to the initial one
W(s, w) == IF w \in 1..Len(s.vw) THEN w ELSE 1
----------------------------------------------------------------------------
(* Creation *)
Creatable(C, t) == Kind(C, t) \notin (PrimKinds \cup ArrKinds)
\* creating an annotation ties it to the subject of the view it is created in
MkFS(C, s, t, v) ==
  LET nd == NewNode(C, t)
      nd2 == IF Subsumes(C, ANNOT, t) THEN [nd EXCEPT !.f[F_SOFA] = s.vw[v].sofa] ELSE nd
  IN Alloc(s, nd2)
Create(C, s, t, v) ==
  IF t = 0 THEN Ret(s, Err("InvalidFSTypeObjectException"))
  ELSE IF ~Creatable(C, t) THEN Ret(s, Err("CouldNotCreateFSOfFinalTypeException"))
  ELSE LET s1 == MkFS(C, s, t, v) IN Ret(AddH(s1, Len(s1.fs)), OK(<<Len(s.h) + 1>>))

----------------------------------------------------------------------------
(* Feature access *)
AccessErr(C, s, n, f, k) ==       \* the error a read of feature f as kind k raises, "" if none
  IF n = 0 THEN "InvalidFSObjectException"
  ELSE IF f = 0 THEN "InvalidFSFeatureObjectException"
  ELSE IF ~Approp(C, s.fs[n].ty, f) THEN "FeatureNotAppropriateException"
  ELSE IF k = FeatAcc(C, f) THEN ""
  ELSE CASE k = "str" -> "FSIsNotStringException"
         [] k = "ref" -> "FeatureNotAppropriateException"
         [] OTHER -> "IncompatibleValueTypeException"

Get(C, s, x, f, k) ==
  LET n == Node(s, x)
      er == AccessErr(C, s, n, f, k)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF k = "ref" THEN RetGive(s, s.fs[n].f[f])
     ELSE Ret(s, OK(<<s.fs[n].f[f]>>))

Put(s, n, f, y) == [s EXCEPT !.fs[n].f[f] = y]
\* y: value token, or a handle when k = "ref"
\* A null string stores the empty string.
StrIn(C, k, y) == IF k = "str" /\ y = 0 THEN C.k.empty ELSE y
Set(C, s, x, f, k, y0) ==
  LET y == StrIn(C, k, y0)
      n == Node(s, x)
      m == Node(s, y)
      base == AccessErr(C, s, n, f, IF n # 0 /\ f # 0 /\ k = "ref" THEN FeatAcc(C, f) ELSE k)
  IN IF base # "" THEN Ret(s, Err(base))
     ELSE IF k = "ref" THEN
        IF m = 0 THEN Ret(s, Err("InvalidFSObjectException"))
        ELSE IF ~Subsumes(C, Rng(C, f), s.fs[m].ty) THEN Ret(s, Err("IncompatibleValueTypeException"))
        ELSE Ret(Put(s, n, f, m), Done)
     ELSE IF Kind(C, Rng(C, f)) = "strsub" /\ y \notin Allowed(C, Rng(C, f))
          THEN Ret(s, Err("WrongStringValueException"))
     ELSE Ret(Put(s, n, f, y), Done)

\* "untouched": never given a non-default value.  Only meaningful (and only asked)
\* for references, strings, longs and doubles.
Untouched(C, s, x, f) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE IF f = 0 THEN Ret(s, Err("InvalidFSFeatureObjectException"))
     ELSE IF ~Approp(C, s.fs[n].ty, f) THEN Ret(s, Err("FeatureNotAppropriateException"))
     ELSE Ret(s, OK(<<B2I(s.fs[n].f[f] = 0)>>))

TypeOf(C, s, x) == LET n == Node(s, x)
                   IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
                      ELSE Ret(s, OK(<<s.fs[n].ty>>))

Clone(C, s, x) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE IF ~Creatable(C, s.fs[n].ty) THEN Ret(s, Err("CouldNotCreateFSOfFinalTypeException"))
     ELSE LET s1 == Alloc(s, s.fs[n]) IN Ret(AddH(s1, Len(s1.fs)), OK(<<Len(s.h) + 1>>))
\* clone into type t: the features of the most specific common supertype are copied
CloneTo(C, s, x, t, v) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE LET c == Create(C, s, t, v)
              m == Len(c.s.fs)
              cs == CommonSuper(C, s.fs[n].ty, t)
          IN IF c.r.t # "ok" THEN c
             ELSE Ret([c.s EXCEPT !.fs[m].f =
                          [g \in DOMAIN @ |-> IF Approp(C, cs, g) THEN s.fs[n].f[g] ELSE @[g]]], c.r)

Same(C, s, x, y) == Ret(s, OK(<<B2I(Node(s, x) = Node(s, y)), B2I(Node(s, x) # 0)>>))

----------------------------------------------------------------------------
(* Arrays.  k is the element kind the client's array handle is typed with. *)
CreateArr(C, s, k, len) ==
  LET nd == [ty |-> ArrType(k), f |-> <<>>, el |-> [i \in 1..len |-> 0]]
      s1 == Alloc(s, nd)
  IN Ret(AddH(s1, Len(s1.fs)), OK(<<Len(s.h) + 1>>))
\* the conversion of a handle to the typed array handle happens first
ArrErr(C, s, x, k) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN "InvalidFSObjectException"
     ELSE IF s.fs[n].ty # ArrType(k) THEN "FSIsNotArrayException" ELSE ""
ArrLen(C, s, x, k) ==
  LET er == ArrErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE Ret(s, OK(<<Len(s.fs[Node(s, x)].el)>>))
ArrGet(C, s, x, k, i) ==
  LET er == ArrErr(C, s, x, k) IN
  IF er # "" THEN Ret(s, Err(er))
  ELSE LET el == s.fs[Node(s, x)].el
       IN IF i < 0 \/ i >= Len(el) THEN Ret(s, Err("FSArrayOutOfBoundsException"))
          ELSE IF k = "ref" THEN RetGive(s, el[i + 1]) ELSE Ret(s, OK(<<el[i + 1]>>))
ArrSet(C, s, x, k, i, y) ==
  LET er == ArrErr(C, s, x, k)
      n == Node(s, x)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF i < 0 \/ i >= Len(s.fs[n].el) THEN Ret(s, Err("FSArrayOutOfBoundsException"))
     ELSE Ret([s EXCEPT !.fs[n].el[i + 1] = IF k = "ref" THEN Node(s, y) ELSE StrIn(C, k, y)], Done)
\* bulk copy out: elements b..e-1 into a buffer of length n prefilled with mark, at offset o
ArrCopyTo(C, s, x, k, b, e, o, buf) ==
  LET er == ArrErr(C, s, x, k) IN
  IF er # "" THEN Ret(s, Err(er))
  ELSE LET el == s.fs[Node(s, x)].el
       IN IF b > e \/ e > Len(el) THEN Ret(s, Err("FSArrayOutOfBoundsException"))
          ELSE Ret(s, OK([i \in 1..Len(buf) |->
                            IF i - 1 >= o /\ i - 1 < o + (e - b) THEN el[b + (i - o)] ELSE buf[i]]))
\* bulk copy in: src[b..e-1] to offset o of the array
ArrCopyFrom(C, s, x, k, src, b, e, o) ==
  LET er == ArrErr(C, s, x, k)
      n == Node(s, x)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF b > e \/ o + (e - b) > Len(s.fs[n].el) THEN Ret(s, Err("FSArrayOutOfBoundsException"))
     ELSE Ret([s EXCEPT !.fs[n].el =
                 [i \in 1..Len(@) |-> IF i - 1 >= o /\ i - 1 < o + (e - b) THEN StrIn(C, k, src[b + (i - o)]) ELSE @[i]]],
              Done)

----------------------------------------------------------------------------
(* Lists.  k: element kind.  A list handle denotes a node; null tail ends a list. *)
IsNE(s, n, k) == n # 0 /\ s.fs[n].ty = ListBase(k) + 2
LTail(s, n, k) == s.fs[n].f[ListTail(k)]
LHead(s, n, k) == s.fs[n].f[ListHead(k)]
RECURSIVE LNodes(_, _, _)
LNodes(s, n, k) == IF IsNE(s, n, k) THEN <<n>> \o LNodes(s, LTail(s, n, k), k) ELSE <<>>
LSeq(s, n, k) == LET ns == LNodes(s, n, k) IN [i \in 1..Len(ns) |-> LHead(s, ns[i], k)]
ListErr(C, s, x, k) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN "InvalidFSObjectException"
     ELSE IF ~Subsumes(C, ListBase(k), s.fs[n].ty) THEN "FSIsNotListException" ELSE ""
NEErr(C, s, x, k) ==
  LET er == ListErr(C, s, x, k)
  IN IF er # "" THEN er ELSE IF IsNE(s, Node(s, x), k) THEN "" ELSE "ListIsEmptyException"
Val(C, s, k, y) == IF k = "ref" THEN Node(s, y) ELSE StrIn(C, k, y)
RefOut(s, n) == IF n = 0 THEN 0 ELSE LET i == Handle(s, n) IN IF i = 0 THEN -1 ELSE i
EmptyNode(C, k) == NewNode(C, ListBase(k) + 1)
ConsNode(C, k, hd, tl) == [NewNode(C, ListBase(k) + 2) EXCEPT !.f[ListHead(k)] = hd, !.f[ListTail(k)] = tl]

CreateList(C, s, k) ==
  LET s1 == Alloc(s, EmptyNode(C, k)) IN Ret(AddH(s1, Len(s1.fs)), OK(<<Len(s.h) + 1>>))
LIsEmpty(C, s, x, k) ==
  LET er == ListErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE Ret(s, OK(<<B2I(~IsNE(s, Node(s, x), k))>>))
LLen(C, s, x, k) ==
  LET er == ListErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE Ret(s, OK(<<Len(LNodes(s, Node(s, x), k))>>))
LGetHead(C, s, x, k) ==
  LET er == NEErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF k = "ref" THEN RetGive(s, LHead(s, Node(s, x), k)) ELSE Ret(s, OK(<<LHead(s, Node(s, x), k)>>))
LSetHead(C, s, x, k, y) ==
  LET er == NEErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE Ret(Put(s, Node(s, x), ListHead(k), Val(C, s, k, y)), Done)
LGetTail(C, s, x, k) ==
  LET er == NEErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE RetGive(s, LTail(s, Node(s, x), k))
LSetTail(C, s, x, k, y) ==
  LET e1 == ListErr(C, s, x, k)
      e2 == ListErr(C, s, y, k)
      e3 == NEErr(C, s, x, k)
  IN IF e1 = "FSIsNotListException" \/ e2 = "FSIsNotListException" THEN Ret(s, Err("FSIsNotListException"))
     ELSE IF e1 # "" THEN Ret(s, Err(e1)) ELSE IF e2 # "" THEN Ret(s, Err(e2))
     ELSE IF e3 # "" THEN Ret(s, Err(e3))
     ELSE IF Node(s, x) \in ToSet(LNodes(s, Node(s, y), k)) THEN Ret(s, Err("ListIsCircularException"))
     ELSE Ret(Put(s, Node(s, x), ListTail(k), Node(s, y)), Done)
LAddFirst(C, s, x, k, y) ==
  LET er == ListErr(C, s, x, k) IN
  IF er # "" THEN Ret(s, Err(er))
  ELSE LET s1 == Alloc(s, ConsNode(C, k, Val(C, s, k, y), Node(s, x)))
       IN Ret([s1 EXCEPT !.h[x] = Len(s1.fs)], Done)
Last1(sq) == sq[Len(sq)]
LAddLast(C, s, x, k, y) ==
  LET er == ListErr(C, s, x, k)
      n == Node(s, x)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF ~IsNE(s, n, k) THEN
        LET s1 == Alloc(s, ConsNode(C, k, Val(C, s, k, y), n))
        IN RetGive([s1 EXCEPT !.h[x] = Len(s1.fs)], Len(s1.fs))
     ELSE LET last == Last1(LNodes(s, n, k))
              s1 == Alloc(s, ConsNode(C, k, Val(C, s, k, y), LTail(s, last, k)))
          IN RetGive(Put(s1, last, ListTail(k), Len(s1.fs)), Len(s1.fs))
\* append y to x.  Two lists that share nodes cannot be appended.
TwoErr(C, s, x, y, k) ==
  LET e1 == ListErr(C, s, x, k)
      e2 == ListErr(C, s, y, k)
  IN IF e1 = "FSIsNotListException" \/ e2 = "FSIsNotListException" THEN "FSIsNotListException"
     ELSE IF e1 # "" THEN e1 ELSE IF e2 # "" THEN e2
     ELSE IF ToSet(LNodes(s, Node(s, x), k)) \cap ToSet(LNodes(s, Node(s, y), k)) # {}
          THEN "ListIsCircularException" ELSE ""
LAppend(C, s, x, k, y) ==
  LET er == TwoErr(C, s, x, y, k)
      n == Node(s, x)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF IsNE(s, n, k) THEN Ret(Put(s, Last1(LNodes(s, n, k)), ListTail(k), Node(s, y)), Done)
     ELSE Ret([s EXCEPT !.h[x] = Node(s, y)], Done)
LPrepend(C, s, x, k, y) ==
  LET er == TwoErr(C, s, x, y, k)
      m == Node(s, y)
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF ~IsNE(s, m, k) THEN Ret(s, Done)
     ELSE Ret([Put(s, Last1(LNodes(s, m, k)), ListTail(k), Node(s, x)) EXCEPT !.h[x] = m], Done)
LNext(C, s, x, k) ==
  LET er == NEErr(C, s, x, k)
  IN IF er # "" THEN Ret(s, Err(er)) ELSE Ret([s EXCEPT !.h[x] = LTail(s, Node(s, x), k)], Done)
\* remove the first occurrence; the removed node becomes a singleton list
LRemove(C, s, x, k, y) ==
  LET er == ListErr(C, s, x, k)
      n == Node(s, x)
      ns == LNodes(s, n, k)
      vs == LSeq(s, n, k)
      hits == { i \in 1..Len(ns) : vs[i] = Val(C, s, k, y) }
  IN IF er # "" THEN Ret(s, Err(er))
     ELSE IF hits = {} THEN Ret(s, OK(<<0>>))
     ELSE LET i == CHOOSE j \in hits : \A q \in hits : j <= q
              nd == ns[i]
              s1 == Alloc(s, EmptyNode(C, k))
              s2 == IF i = 1 THEN [s1 EXCEPT !.h[x] = LTail(s, nd, k)]
                    ELSE Put(s1, ns[i - 1], ListTail(k), LTail(s, nd, k))
              s3 == Put(s2, nd, ListTail(k), Len(s1.fs))
          IN RetGive(s3, nd)
\* whole contents, read by walking head/tail
LDump(C, s, x, k) ==
  LET er == ListErr(C, s, x, k) IN
  IF er # "" THEN Ret(s, Err(er))
  ELSE LET vs == LSeq(s, Node(s, x), k)
       IN Ret(s, OK([i \in 1..Len(vs) |-> IF k = "ref" THEN RefOut(s, vs[i]) ELSE vs[i]]))
\* reading a list-valued feature: an untouched feature gets an empty list
LOfFeature(C, s, x, f, k) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE IF f = 0 THEN Ret(s, Err("InvalidFSFeatureObjectException"))
     ELSE IF ~Approp(C, s.fs[n].ty, f) THEN Ret(s, Err("FeatureNotAppropriateException"))
     ELSE IF ~Subsumes(C, ListBase(k), Rng(C, f)) THEN Ret(s, Err("FSIsNotListException"))
     ELSE IF s.fs[n].f[f] # 0 THEN RetGive(s, s.fs[n].f[f])
     ELSE LET s1 == Alloc(s, EmptyNode(C, k)) IN RetGive(Put(s1, n, f, Len(s1.fs)), Len(s1.fs))
LHasElems(C, s, x, f, k) ==
  LET n == Node(s, x)
  IN IF n = 0 THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE IF f = 0 THEN Ret(s, Err("InvalidFSFeatureObjectException"))
     ELSE IF ~Approp(C, s.fs[n].ty, f) THEN Ret(s, Err("FeatureNotAppropriateException"))
     ELSE LET ks == { kk \in {"ref", "int", "float", "str"} : Subsumes(C, ListBase(kk), Rng(C, f)) }
          IN IF ks = {} THEN Ret(s, Err("FSIsNotListException"))
             ELSE Ret(s, OK(<<B2I(IsNE(s, s.fs[n].f[f], CHOOSE kk \in ks : TRUE))>>))

----------------------------------------------------------------------------
(* Everything a client can read through its handles *)
NodeOut(C, s, n) ==
  IF n = 0 THEN <<0>>
  ELSE LET nd == s.fs[n]
           fq == FeatSeq(C, nd.ty)
           k == Kind(C, nd.ty)
       IN IF k \in ArrKinds
          THEN <<nd.ty, Len(nd.el)>> \o [i \in 1..Len(nd.el) |-> IF k = "afs" THEN RefOut(s, nd.el[i]) ELSE nd.el[i]]
          ELSE <<nd.ty>> \o [i \in 1..Len(fq) |->
                  IF FeatAcc(C, fq[i]) = "ref" THEN RefOut(s, nd.f[fq[i]]) ELSE nd.f[fq[i]]]
Dump(C, s) == Ret(s, OK(FoldLeft(LAMBDA a, n : a \o NodeOut(C, s, n), <<>>, s.h)))

HeapOps == {"cr", "get", "set", "unt", "type", "clone", "clone2", "same", "dump", "junk",
            "cra", "alen", "aget", "aset", "acto", "acfrom",
            "crl", "lemp", "llen", "lhead", "lsethead", "ltail", "lsettail", "laddf", "laddl",
            "lapp", "lpre", "lnext", "lrem", "ldump", "lfeat", "lhas"}
HeapApply(C, s, e) ==
  CASE e.op = "cr" -> Create(C, s, e.t, W(s, e.w))
    [] e.op = "get" -> Get(C, s, e.x, e.f, e.k)
    [] e.op = "set" -> Set(C, s, e.x, e.f, e.k, e.y)
    [] e.op = "unt" -> Untouched(C, s, e.x, e.f)
    [] e.op = "type" -> TypeOf(C, s, e.x)
    [] e.op = "clone" -> Clone(C, s, e.x)
    [] e.op = "clone2" -> CloneTo(C, s, e.x, e.t, W(s, e.w))
    [] e.op = "same" -> Same(C, s, e.x, e.y)
    [] e.op = "dump" -> Dump(C, s)
    [] e.op = "junk" -> Ret(s, Done)          \* e.n unreachable structures and strings are created
    [] e.op = "cra" -> CreateArr(C, s, e.k, e.n)
    [] e.op = "alen" -> ArrLen(C, s, e.x, e.k)
    [] e.op = "aget" -> ArrGet(C, s, e.x, e.k, e.i)
    [] e.op = "aset" -> ArrSet(C, s, e.x, e.k, e.i, e.y)
    [] e.op = "acto" -> ArrCopyTo(C, s, e.x, e.k, e.b, e.e, e.o, e.src)
    [] e.op = "acfrom" -> ArrCopyFrom(C, s, e.x, e.k, e.src, e.b, e.e, e.o)
    [] e.op = "crl" -> CreateList(C, s, e.k)
    [] e.op = "lemp" -> LIsEmpty(C, s, e.x, e.k)
    [] e.op = "llen" -> LLen(C, s, e.x, e.k)
    [] e.op = "lhead" -> LGetHead(C, s, e.x, e.k)
    [] e.op = "lsethead" -> LSetHead(C, s, e.x, e.k, e.y)
    [] e.op = "ltail" -> LGetTail(C, s, e.x, e.k)
    [] e.op = "lsettail" -> LSetTail(C, s, e.x, e.k, e.y)
    [] e.op = "laddf" -> LAddFirst(C, s, e.x, e.k, e.y)
    [] e.op = "laddl" -> LAddLast(C, s, e.x, e.k, e.y)
    [] e.op = "lapp" -> LAppend(C, s, e.x, e.k, e.y)
    [] e.op = "lpre" -> LPrepend(C, s, e.x, e.k, e.y)
    [] e.op = "lnext" -> LNext(C, s, e.x, e.k)
    [] e.op = "lrem" -> LRemove(C, s, e.x, e.k, e.y)
    [] e.op = "ldump" -> LDump(C, s, e.x, e.k)
    [] e.op = "lfeat" -> LOfFeature(C, s, e.x, e.f, e.k)
    [] e.op = "lhas" -> LHasElems(C, s, e.x, e.f, e.k)

----------------------------------------------------------------------------
(* Invariants of the heap *)
HeapTypeOK(C, s) ==
  /\ \A i \in 1..Len(s.h) : s.h[i] \in 0..Len(s.fs)
  /\ \A n \in 1..Len(s.fs) : LET nd == s.fs[n] IN
       /\ DOMAIN nd.f = IF Kind(C, nd.ty) \in ArrKinds THEN {} ELSE FeatSet(C, nd.ty)
       /\ \A g \in DOMAIN nd.f : FeatAcc(C, g) = "ref" =>
             nd.f[g] = 0 \/ Subsumes(C, Rng(C, g), s.fs[nd.f[g]].ty)
\* no list contains itself
RECURSIVE Ends(_, _, _, _)
Ends(s, n, k, fuel) == ~IsNE(s, n, k) \/ (fuel > 0 /\ Ends(s, LTail(s, n, k), k, fuel - 1))
ListsEnd(C, s) == \A n \in 1..Len(s.fs) : \A k \in {"ref", "int", "float", "str"} :
                     IsNE(s, n, k) => Ends(s, n, k, Len(s.fs))
=============================================================================
