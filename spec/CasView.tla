------------------------------ MODULE CasView -------------------------------
(***************************************************************************)
(* Views, subjects of analysis (sofas), document text and annotation,      *)
(* reset.  s.vw[n] is view number n: [sofa, doc, mem, st].  View 1 is the  *)
(* initial view; its sofa exists once data has been set through it.        *)
(* C.k names special string tokens: .init "_InitialView", .text "text",    *)
(* .empty "".  C.st[token] is the sequence of UTF-16 units of a string.    *)
(***************************************************************************)
EXTENDS CasIndex

EmptyView(C, sofa) == [sofa |-> sofa, doc |-> 0, mem |-> <<>>, st |-> [i \in 1..Len(C.ix) |-> <<>>]]
Init0(C) == [fs |-> <<>>, h |-> <<>>, vw |-> <<EmptyView(C, 0)>>, it |-> <<>>, sm |-> <<>>, rank |-> C.rank]

Units(C, y) == IF y = 0 THEN <<>> ELSE C.st[y]
TextOf(C, s, v) == IF s.vw[v].sofa = 0 THEN <<>> ELSE Units(C, s.fs[s.vw[v].sofa].f[F_SSTRING])
SofaName(s, v) == IF s.vw[v].sofa = 0 THEN 0 ELSE s.fs[s.vw[v].sofa].f[F_SOFAID]
ViewsNamed(C, s, y) == { v \in 1..Len(s.vw) : s.vw[v].sofa # 0 /\ SofaName(s, v) = y }

NewSofa(C, s, v, num, name, mime) ==
  LET nd == [NewNode(C, SOFA) EXCEPT !.f[F_SOFANUM] = num, !.f[F_SOFAID] = name, !.f[F_MIME] = mime]
      s1 == Alloc(s, nd)
  IN IF v > Len(s1.vw) THEN [s1 EXCEPT !.vw = Append(@, EmptyView(C, Len(s1.fs)))]
     ELSE [s1 EXCEPT !.vw[v].sofa = Len(s1.fs)]
CreateView(C, s, y) ==
  IF y = C.k.init \/ ViewsNamed(C, s, y) # {} THEN Ret(s, Err("DuplicateSofaNameException"))
  ELSE LET n == Len(s.vw) + 1
           s1 == NewSofa(C, s, n, n, y, 0)
           g == Give(s1, Len(s1.fs))
       IN Ret(g.s, OK(<<n, g.v>>))
GetView(C, s, y) ==
  IF y = C.k.init THEN Ret(s, OK(<<1>>))
  ELSE LET vs == ViewsNamed(C, s, y)
       IN IF vs = {} THEN Ret(s, Err("DuplicateSofaNameException")) ELSE Ret(s, OK(<<CHOOSE v \in vs : TRUE>>))
ViewOfSofa(C, s, x) == Ret(s, OK(<<s.fs[Node(s, x)].f[F_SOFANUM]>>))

\* the subject of view v, made on first use for the initial view
WithSofa(C, s, v, mime) == IF s.vw[v].sofa # 0 THEN s ELSE NewSofa(C, s, v, 1, C.k.init, mime)
HasData(s, n) == s.fs[n].f[F_SSTRING] # 0 \/ s.fs[n].f[F_SARRAY] # 0 \/ s.fs[n].f[F_SURI] # 0
\* the document annotation, made unindexed on first use
WithDoc(C, s, v) ==
  IF s.vw[v].doc # 0 THEN s
  ELSE LET s1 == Alloc(s, [NewNode(C, DOCANN) EXCEPT !.f[F_LANG] = C.k.empty, !.f[F_SOFA] = s.vw[v].sofa])
       IN [s1 EXCEPT !.vw[v].doc = Len(s1.fs)]
\* setting a text gives the view an indexed document annotation spanning it
SpanDoc(C, s, v, y) ==
  IF Units(C, y) = <<>> THEN s
  ELSE LET s1 == WithDoc(C, s, v)
           d == s1.vw[v].doc
           s2 == RemFromView(C, s1, v, d)
           s3 == Put(s2, d, F_END, Len(Units(C, y)))
       IN AddToView(C, s3, v, d)
SofaDoc(C, s, v) ==
  LET g == Give(s, s.vw[v].sofa)
      d == IF TextOf(C, s, v) = <<>> THEN 0 ELSE s.vw[v].doc
      g2 == Give(g.s, d)
  IN Ret(g2.s, OK(<<g.v, g2.v>>))
\* which: F_SSTRING (y a string token), F_SARRAY (y a node), F_SURI (y a string token)
SetData(C, s, v, which, y0, mime, setMime) ==
  LET s1 == WithSofa(C, s, v, mime)
      so == s1.vw[v].sofa
      y == IF which = F_SARRAY THEN y0 ELSE StrIn(C, "str", y0)
      s2a == Put(s1, so, which, y)
      s2 == IF setMime THEN Put(s2a, so, F_MIME, StrIn(C, "str", mime)) ELSE s2a
      s3 == IF which = F_SSTRING THEN SpanDoc(C, s2, v, y) ELSE s2
  IN IF s.vw[v].sofa # 0 /\ HasData(s, s.vw[v].sofa) THEN Ret(s, Err("CASException"))
     ELSE IF which = F_SSTRING THEN SofaDoc(C, [s3 EXCEPT !.it = <<>>], v)
     ELSE LET g == Give(s3, so) IN Ret(g.s, OK(<<g.v, 0>>))
\* through the subject structure itself
SetSofaFS(C, s, e) ==
  LET n == Node(s, e.x)
      v == s.fs[n].f[F_SOFANUM]
      which == CASE e.m = 0 -> F_SSTRING [] e.m = 1 -> F_SARRAY [] e.m = 2 -> F_SURI
      y == IF e.m = 1 THEN Node(s, e.y) ELSE StrIn(C, "str", e.y)
      s2 == Put(s, n, which, y)
  IN IF HasData(s, n) THEN Ret(s, Err("CASException"))
     ELSE IF e.m # 0 THEN Ret(s2, Done)
     ELSE SofaDoc(C, [SpanDoc(C, s2, v, y) EXCEPT !.it = <<>>], v)

NoSofa == Err("InvalidFSObjectException")
SofaInfo(C, s, x) ==
  LET f == s.fs[Node(s, x)].f
      g == Give(s, f[F_SARRAY])
  IN Ret(g.s, OK(<<f[F_SOFANUM], f[F_SOFAID], f[F_MIME], f[F_SURI], f[F_SSTRING], g.v>>))
\* subjects by number
Sofas(C, s) == Ret(s, OK(FoldLeft(LAMBDA a, v : IF s.vw[v].sofa = 0 THEN a ELSE Append(a, Handle(s, s.vw[v].sofa)),
                                  <<>>, [v \in 1..Len(s.vw) |-> v])))
GetDoc(C, s, v) == LET s1 == WithDoc(C, s, v) IN RetGive(s1, s1.vw[v].doc)
\* the view an annotation belongs to
AnnView(s, n) == IF s.fs[n].f[F_SOFA] = 0 THEN 1 ELSE s.fs[s.fs[n].f[F_SOFA]].f[F_SOFANUM]
MakeAnn(C, s, e) ==
  IF e.t = 0 THEN Ret(s, Err("InvalidFSTypeObjectException"))
  ELSE LET s1 == MkFS(C, s, e.t, W(s, e.w))
           n == Len(s1.fs)
           s2 == Put(Put(s1, n, F_BEGIN, e.b), n, F_END, e.e)
       IN Ret(AddH(s2, n), OK(<<Len(s.h) + 1>>))
AnnErr(C, s, x, f) == LET n == Node(s, x)
                      IN IF n = 0 THEN "InvalidFSObjectException"
                         ELSE IF ~Approp(C, s.fs[n].ty, f) THEN "FeatureNotAppropriateException" ELSE ""
Covers(C, s, x) ==
  LET n == Node(s, x)
      t == TextOf(C, s, AnnView(s, n))
  IN IF AnnErr(C, s, x, F_SOFA) # "" THEN Ret(s, Err(AnnErr(C, s, x, F_SOFA)))
     ELSE IF t = <<>> THEN Ret(s, Err("InvalidFSObjectException"))
     ELSE Ret(s, OK(SubSeq(t, BeginOf(s, n) + 1, EndOf(s, n))))
\* a first covering annotation: the nearest preceding one, of another type, that covers x
FirstCov(C, s, e) ==
  LET n == Node(s, e.x)
      v == AnnView(s, n)
      sq == Arranged(C, s, 1, Members(C, s, v, 1, e.t))
      stop == { p \in 1..Len(sq) : BeginOf(s, sq[p]) > BeginOf(s, n) }
      upto == IF stop = {} THEN Len(sq) ELSE (CHOOSE p \in stop : \A q \in stop : p <= q) - 1
      cov == SelectSeq(SubSeq(sq, 1, upto), LAMBDA m : BeginOf(s, m) <= BeginOf(s, n)
                          /\ EndOf(s, m) >= EndOf(s, n) /\ s.fs[m].ty # s.fs[n].ty)
      last == Last1(cov)
      same == { m \in ToSet(cov) : Cmp(C, s, 1, m, last) = 0 }
      obs == IF "obs" \in DOMAIN e /\ Len(e.obs) = 1 /\ e.obs[1] \in 1..Len(s.h) /\ s.h[e.obs[1]] \in same
             THEN s.h[e.obs[1]] ELSE last
  IN IF cov = <<>> THEN Ret(s, OK(<<0>>)) ELSE RetGive(s, obs)
Reset(C, s) == Ret([Init0(C) EXCEPT !.rank = s.rank], OK(<<0>>))

ViewOps == {"cv", "gv", "gvs", "vn", "dtext", "sds", "sda", "sdu", "sfs", "gtext", "guri", "garr", "gsofa",
            "sofainfo", "sofas", "doc", "lang", "setlang", "can", "cov", "pos", "aview", "fcov", "reset"}
ViewApply(C, s, e) ==
  LET w == IF "w" \in DOMAIN e THEN W(s, e.w) ELSE 1
      so == s.vw[w].sofa
  IN
  CASE e.op = "cv" -> CreateView(C, s, e.y)
    [] e.op = "gv" -> GetView(C, s, e.y)
    [] e.op = "gvs" -> ViewOfSofa(C, s, e.x)
    [] e.op = "vn" -> Ret(s, OK(<<SofaName(s, w)>>))
    [] e.op = "dtext" -> SetData(C, s, w, F_SSTRING, e.y, C.k.text, FALSE)
    [] e.op = "sds" -> SetData(C, s, w, F_SSTRING, e.y, e.m, TRUE)
    [] e.op = "sda" -> SetData(C, s, w, F_SARRAY, Node(s, e.x), e.m, TRUE)
    [] e.op = "sdu" -> SetData(C, s, w, F_SURI, e.y, e.m, TRUE)
    [] e.op = "sfs" -> SetSofaFS(C, s, e)
    [] e.op = "gtext" -> Ret(s, OK(TextOf(C, s, w)))
    [] e.op = "guri" -> IF so = 0 THEN Ret(s, NoSofa) ELSE Ret(s, OK(<<s.fs[so].f[F_SURI]>>))
    [] e.op = "garr" -> IF so = 0 THEN Ret(s, NoSofa) ELSE RetGive(s, s.fs[so].f[F_SARRAY])
    [] e.op = "gsofa" -> RetGive(s, so)
    [] e.op = "sofainfo" -> SofaInfo(C, s, e.x)
    [] e.op = "sofas" -> Sofas(C, s)
    [] e.op = "doc" -> GetDoc(C, s, w)
    [] e.op = "lang" -> LET er == AnnErr(C, s, e.x, F_LANG) IN
                        IF er # "" THEN Ret(s, Err(er)) ELSE Ret(s, OK(<<StrIn(C, "str", s.fs[Node(s, e.x)].f[F_LANG])>>))
    [] e.op = "setlang" -> LET er == AnnErr(C, s, e.x, F_LANG) IN
                           IF er # "" THEN Ret(s, Err(er)) ELSE Ret(Put(s, Node(s, e.x), F_LANG, e.y), Done)
    [] e.op = "can" -> MakeAnn(C, s, e)
    [] e.op = "cov" -> Covers(C, s, e.x)
    [] e.op = "pos" -> LET n == Node(s, e.x)
                           er == AnnErr(C, s, e.x, F_BEGIN) IN
                       IF er # "" THEN Ret(s, Err(er)) ELSE
                       Ret(s, OK(<<BeginOf(s, n), EndOf(s, n), EndOf(s, n) - BeginOf(s, n)>>))
    [] e.op = "aview" -> LET er == AnnErr(C, s, e.x, F_SOFA) IN
                         IF er # "" THEN Ret(s, Err(er)) ELSE Ret(s, OK(<<AnnView(s, Node(s, e.x))>>))
    [] e.op = "fcov" -> FirstCov(C, s, e)
    [] e.op = "reset" -> Reset(C, s)

----------------------------------------------------------------------------
(* Invariants *)
ViewsOK(C, s) ==
  \* view numbers and names identify subjects one to one
  /\ \A v \in 1..Len(s.vw) : s.vw[v].sofa # 0 => s.fs[s.vw[v].sofa].f[F_SOFANUM] = v
  /\ \A v \in 2..Len(s.vw) : s.vw[v].sofa # 0
  /\ \A v, u \in 1..Len(s.vw) : v # u /\ s.vw[v].sofa # 0 /\ s.vw[u].sofa # 0 => SofaName(s, v) # SofaName(s, u)
  \* at most one kind of data per subject
  /\ \A v \in 1..Len(s.vw) : s.vw[v].sofa # 0 =>
       Cardinality({ g \in {F_SSTRING, F_SARRAY, F_SURI} : s.fs[s.vw[v].sofa].f[g] # 0 }) <= 1
  \* a text comes with a document annotation that spans it, in this view
  /\ \A v \in 1..Len(s.vw) : TextOf(C, s, v) # <<>> =>
       /\ s.vw[v].doc # 0
       /\ AnnView(s, s.vw[v].doc) = v
=============================================================================
