------------------------------ MODULE TypeSys ------------------------------
(***************************************************************************)
(* The type system: definitions one by one (the lowlevel interface), and    *)
(* whole type systems merged from descriptions.                            *)
(* Types are named by numbers: 1..36 the built-in ones, beyond them the     *)
(* names of users. A feature is (introducing type, name), written as one    *)
(* number intro * 1000 + name.                                             *)
(* State: ty: for every type [par, cr, en (allowed strings), e0 (as listed)],*)
(*  ft: the features [i, n, r, m, c], com: committed, pr: priority pairs.   *)
(* C: bp parents of the built-in types, bf built-in features [i, n, r, m];  *)
(*  desc: type system descriptions [im, ts], an import 0 being a file that  *)
(*  does not exist, ts a sequence of [nm, sup, al, fs: sequence of [n, r]]; *)
(*  mr: for each feature name, multiple references allowed?                *)
(*  ae: tree of components [d, kids], d a description                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
OK(v) == [t |-> "ok", v |-> v]
Err(x) == [t |-> x, v |-> <<>>]
Ret(s, r) == [s |-> s, r |-> r]
Bool(b) == OK(<<IF b THEN 1 ELSE 0>>)
SortN(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
TOP == 1
STR == 4
Builtin == 1..36
\* the lowlevel type system itself knows 1..32; the CAS adds the rest
Low == 1..32
\* no subtypes and no features: primitives and arrays
FinalB == (2..9) \cup (23..32)
PrimB == {2, 3, 4} \cup (23..27)

Types(s) == DOMAIN s.ty
Par(s, t) == s.ty[t].par
RECURSIVE Up(_, _)
Up(s, t) == IF t = 0 THEN {} ELSE {t} \cup Up(s, Par(s, t))
Subsumes(s, a, b) == a \in Up(s, b)
Down(s, a) == {t \in Types(s) : Subsumes(s, a, t)}
StrSub(s, t) == Par(s, t) = STR
Final(s, t) == t \in FinalB \/ StrSub(s, t)
FKey(f) == f.i * 1000 + f.n
\* appropriate features: introduced by the type or an ancestor
Approp(s, t) == {f \in s.ft : f.i \in Up(s, t)}
ByBase(s, t, n) == {f \in Approp(s, t) : f.n = n}
Key(S) == IF S = {} THEN OK(<<-1>>) ELSE OK(<<FKey(CHOOSE f \in S : TRUE)>>)
RECURSIVE Common(_, _, _)
Common(s, a, b) == IF Subsumes(s, a, b) THEN a ELSE Common(s, Par(s, a), b)
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {p[2] : p \in {q \in E : q[1] \in S}} IN IF T = S THEN S ELSE Reach(E, T)
Before(E, a, b) == b \in Reach(E, {a})

Base(C, T) == [ty |-> [t \in T |-> [par |-> C.bp[t], cr |-> 0, en |-> {}, e0 |-> <<>>]],
               ft |-> {[i |-> C.bf[k].i, n |-> C.bf[k].n, r |-> C.bf[k].r, m |-> C.bf[k].m, c |-> 0] : k \in {j \in DOMAIN C.bf : C.bf[j].i \in T}},
               com |-> FALSE, pr |-> {}]
Init0(C) == [Base(C, Builtin) EXCEPT !.com = TRUE]

(* ---------------------------- definitions ------------------------------ *)
Add(s, nm, par, cr, al) == [s EXCEPT !.ty = (nm :> [par |-> par, cr |-> cr, en |-> Range(al), e0 |-> al]) @@ @]
Define(C, s, e) ==
  CASE e.op = "reset" -> Ret(Base(C, Low), OK(<<>>))
    [] e.op = "tcreate" ->
        IF Final(s, e.par) \/ e.nm \in Types(s) THEN Ret(s, Err("lowlevel::TypeCreationFailedException"))
        ELSE Ret(Add(s, e.nm, e.par, e.cr, <<>>), OK(<<>>))
    [] e.op = "scr" ->
        IF e.nm \in Types(s) THEN Ret(s, Err("lowlevel::TypeCreationFailedException"))
        ELSE Ret(Add(s, e.nm, STR, e.cr, e.al), OK(<<>>))
    [] e.op = "fcreate" ->
        IF Final(s, e.i) \/ e.i = TOP \/ \E f \in s.ft : f.n = e.n /\ (Subsumes(s, f.i, e.i) \/ Subsumes(s, e.i, f.i))
        THEN Ret(s, Err("lowlevel::FeatureIntroductionFailedException"))
        ELSE Ret([s EXCEPT !.ft = @ \cup {[i |-> e.i, n |-> e.n, r |-> e.r, m |-> e.m, c |-> e.cr]}], OK(<<e.i * 1000 + e.n>>))
    [] e.op = "prio" ->
        LET cyc == Before(s.pr, e.b, e.a) IN
        Ret(IF cyc THEN s ELSE [s EXCEPT !.pr = @ \cup {<<e.a, e.b>>}], OK(<<IF cyc THEN 0 ELSE 1>>))
    [] e.op = "commit" -> Ret([s EXCEPT !.com = TRUE], OK(<<>>))

(* ------------------------------ queries -------------------------------- *)
Order(s, o) == /\ Len(o) = Cardinality(Types(s)) /\ Range(o) = Types(s)
               /\ \A p \in s.pr : \E a, b \in DOMAIN o : o[a] = p[1] /\ o[b] = p[2] /\ a < b
Query(s, e) ==
  CASE e.k = "all" -> OK(SortN(Types(s)))
    [] e.k = "par" -> OK(<<Par(s, e.t)>>)
    [] e.k = "dir" -> OK(SortN({t \in Types(s) : Par(s, t) = e.t}))
    [] e.k = "subs" -> OK(SortN(Down(s, e.t)))
    [] e.k = "row" -> OK(SortN(Down(s, e.t)))
    [] e.k = "csup" -> OK(<<Common(s, e.t, e.u)>>)
    [] e.k = "byname" -> Bool(e.t \in Types(s))
    [] e.k = "feats" -> OK(SortN({FKey(f) : f \in s.ft}))
    [] e.k \in {"approp", "isapp"} -> OK(SortN({FKey(f) : f \in Approp(s, e.t)}))
    [] e.k = "fnum" -> OK(<<Cardinality(Approp(s, e.t))>>)
    [] e.k = "offs" -> OK(<<1>>)
    [] e.k = "fby" -> Key(IF e.t \in Types(s) THEN ByBase(s, e.t, e.n) ELSE {})
    [] e.k = "ffull" -> Key(IF e.form = 0 /\ e.t \in Types(s) THEN ByBase(s, e.t, e.n) ELSE {})
    [] e.k = "finfo" ->
        LET S == IF e.t \in Types(s) THEN ByBase(s, e.t, e.n) ELSE {} IN
        IF S = {} THEN OK(<<-1>>) ELSE LET f == CHOOSE f \in S : TRUE IN OK(<<f.i, f.r, f.m>>)
    [] e.k = "fcr" -> LET f == CHOOSE f \in ByBase(s, e.t, e.n) : TRUE IN OK(<<f.c>>)
    [] e.k = "tcr" -> OK(<<s.ty[e.t].cr>>)
    [] e.k = "strs" -> OK(s.ty[e.t].e0)
    [] e.k = "strset" -> OK(SortN(s.ty[e.t].en))
    [] e.k = "prim" -> Bool(e.t \in PrimB \/ StrSub(s, e.t))
    [] e.k = "sst" -> Bool(StrSub(s, e.t))
    [] e.k = "final" -> OK(<<IF Final(s, e.t) THEN 0 ELSE 1, IF Final(s, e.t) \/ e.t = TOP THEN 0 ELSE 1>>)
    [] e.k = "order" -> IF Order(s, e.obs) THEN OK(e.obs) ELSE Err("order")
    [] e.k = "invt" -> Err("InvalidFSTypeObjectException")
    [] e.k = "invf" -> Err("InvalidFSFeatureObjectException")
    [] e.k = "inveq" -> OK(<<1, 0>>)

(* -------------------- type systems from descriptions ------------------- *)
RECURSIVE Closure(_, _)
Closure(C, D) == LET E == D \cup UNION {Range(C.desc[d].im) : d \in D \ {0}} IN IF E = D THEN D ELSE Closure(C, E)
RECURSIVE Own(_, _)
Own(C, k) == {C.ae[k].d} \cup UNION {Own(C, j) : j \in Range(C.ae[k].kids)}
Dup(q) == \E i, j \in DOMAIN q : i < j /\ q[i] = q[j]
Decls(C, D) == UNION {{C.desc[d].ts[k] : k \in DOMAIN C.desc[d].ts} : d \in D}
DupIn(C, D) == \E x \in Decls(C, D) : Dup(x.al) \/ Dup([k \in DOMAIN x.fs |-> x.fs[k].n])
Sups(C, X, nm) == {x.sup : x \in {y \in X : y.nm = nm}} \cup (IF nm \in Builtin THEN {C.bp[nm]} ELSE {})
\* the types, or a reason why there are none
Union(C, D) ==
  LET X == TLCEval(Decls(C, D \ {0}))
      N == TLCEval({x.nm : x \in X} \cup Builtin)
      sps == TLCEval([n \in N |-> Sups(C, X, n)])
      sup == TLCEval([n \in N |-> IF sps[n] = {} THEN 0 ELSE CHOOSE p \in sps[n] : TRUE])
      RECURSIVE Rooted(_, _)
      Rooted(n, seen) == n = TOP \/ (n \in N /\ n \notin seen /\ Rooted(sup[n], seen \cup {n}))
      fin == TLCEval(FinalB \cup {n \in N : sup[n] = STR})
      ty == TLCEval([n \in N |-> [par |-> sup[n], cr |-> 0, en |-> UNION {Range(x.al) : x \in {y \in X : y.nm = n}}, e0 |-> <<>>]])
      s == [ty |-> ty]
      all == TLCEval({[i |-> C.bf[k].i, n |-> C.bf[k].n, r |-> C.bf[k].r] : k \in DOMAIN C.bf}
             \cup UNION {{[i |-> x.nm, n |-> x.fs[k].n, r |-> x.fs[k].r] : k \in DOMAIN x.fs} : x \in X})
      keys == TLCEval({FKey(f) : f \in all})
      \* introduced again below: an ancestor has a feature of the same name
      Again(f) == \E a \in Up(s, f.i) \ {f.i} : (a * 1000 + f.n) \in keys
      bm == [f \in {[i |-> C.bf[k].i, n |-> C.bf[k].n, r |-> C.bf[k].r] : k \in DOMAIN C.bf} |->
               (CHOOSE k \in DOMAIN C.bf : C.bf[k].i = f.i /\ C.bf[k].n = f.n)]
  IN IF \/ 0 \in D
        \/ DupIn(C, D)
        \/ \E n \in N : Cardinality(sps[n]) # 1
        \/ \E n \in N : ~Rooted(n, {})
        \/ \E n \in N \ Builtin : sup[n] # STR /\ sup[n] \in fin
        \/ \E f \in all : f.r \notin N
        \/ \E f \in all : f.i \in fin \cup {TOP}
     THEN [bad |-> TRUE]
     \* the built-in features are there first
     ELSE IF \/ \E k \in DOMAIN C.bf : \E a \in Up(s, C.bf[k].i) \ {C.bf[k].i} : (a * 1000 + C.bf[k].n) \in keys
             \/ Cardinality(keys) # Cardinality(all)
             \/ \E f \in {g \in all : Again(g)} : \E g \in all : f.n = g.n /\ f.r # g.r /\ Subsumes(s, g.i, f.i)
     THEN [bad |-> TRUE]
     ELSE [bad |-> FALSE,
           s |-> [ty |-> ty, com |-> TRUE, pr |-> {},
                  ft |-> {[i |-> f.i, n |-> f.n, r |-> f.r, m |-> IF f \in DOMAIN bm THEN C.bf[bm[f]].m ELSE C.mr[f.n], c |-> 0]
                            : f \in {g \in all : ~Again(g)}}]]
\* priority chains: every pair of neighbours
Pairs(chains) == UNION {{<<chains[k][j], chains[k][j + 1]>> : j \in 1..(Len(chains[k]) - 1)} : k \in DOMAIN chains}
Cyclic(E) == \E p \in E : Before(E, p[2], p[1])
Build(C, s, e) ==
  LET Of(k) == UNION {Closure(C, {d}) : d \in Own(C, k)}
      U == Union(C, IF e.how = "ae" THEN Of(e.root) ELSE Closure(C, {e.root}))
      P == IF "pr" \in DOMAIN e THEN Pairs(e.pr) ELSE {}
  IN IF U.bad \/ Cyclic(P) \/ (~U.bad /\ \E p \in P : {p[1], p[2]} \ DOMAIN U.s.ty # {}) THEN Ret(s, OK(<<-1>>))
     ELSE Ret([U.s EXCEPT !.pr = P,
                \* the XML form of a type hierarchy does not tell of multiple references
                !.ft = IF "xml" \in DOMAIN e /\ e.xml = 1 THEN {IF f.i \in Builtin /\ f.n \in {C.bf[k].n : k \in {j \in DOMAIN C.bf : C.bf[j].i = f.i}} THEN f ELSE [f EXCEPT !.m = 0] : f \in @} ELSE @], OK(<<0>>))

Apply(C, s, e) ==
  CASE e.op = "build" -> Build(C, s, e)
    [] e.op = "q" -> Ret(s, Query(s, e))
    [] OTHER -> Define(C, s, e)

(* what every reachable type system satisfies *)
Consistent(C, s) ==
  /\ \A t \in Types(s) : (t = TOP /\ Par(s, t) = 0) \/ Par(s, t) \in Types(s)
  /\ \A t \in Types(s) : TOP \in Up(s, t)
  /\ \A f \in s.ft : f.i \in Types(s) /\ f.r \in Types(s)
  /\ LET K == TLCEval({FKey(f) : f \in s.ft}) IN
       /\ Cardinality(K) = Cardinality(s.ft)
       /\ \A f \in s.ft : \A a \in Up(s, f.i) \ {f.i} : (a * 1000 + f.n) \notin K
  /\ \A t \in Types(s) \ Builtin : ~(Par(s, t) \in FinalB \ {STR})
  /\ ~Cyclic(s.pr)
=============================================================================
