------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Configuration parameters of a tree of components.  C describes it:      *)
(*  n: the nodes, 1 the root, each                                         *)
(*     [par: enclosing aggregate, gs: declared groups, in order,            *)
(*      ps: declarations [g, nm, ty, mu, man, rst], in order,              *)
(*      ss: settings [g, nm, ty, mu, v], in order,                         *)
(*      strat: 0 none / 1 default / 2 language fallback, dg: default group] *)
(*  cut: for every group name what is left of it before its last "-", or 0 *)
(* Names are numbers. Group 0 is "no group", -1 the common parameters; a    *)
(* default group 0 is none. ty: 1 string 2 integer 3 float 4 boolean; mu    *)
(* 1 = multi-valued; man 1 = mandatory; rst: the delegates (nodes) that may *)
(* override, none = every one.  Values are numbers.                        *)
(* State: up (is there an engine?), st: the settings of each node, a        *)
(* sequence of [g, nm, ty, mu, v] with at most one for each (g, nm).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
OK(v) == [t |-> "ok", v |-> v]
Err(x) == [t |-> x, v |-> <<>>]
Ret(s, r) == [s |-> s, r |-> r]
NC(C) == Len(C.n)
Nd(C, k) == C.n[k]
SortN(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
COMMON == -1
NODEF == -2       \* the name of the default group where none is declared: no group at all

HasGroups(C, k) == \E p \in Range(Nd(C, k).ps) : p.g # 0
DefGroup(C, k) == IF Nd(C, k).dg = 0 THEN NODEF ELSE Nd(C, k).dg
Groups(C, k) == Range(Nd(C, k).gs) \cup {p.g : p \in Range(Nd(C, k).ps)} \cup (IF Nd(C, k).dg = 0 THEN {} ELSE {Nd(C, k).dg})
Decl(C, k, g, nm) == LET S == {i \in DOMAIN Nd(C, k).ps : Nd(C, k).ps[i].g = g /\ Nd(C, k).ps[i].nm = nm} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* the declaration that counts in group g: the group's own, else the common one
DeclIn(C, k, g, nm) == IF Decl(C, k, g, nm) # 0 THEN Decl(C, k, g, nm) ELSE Decl(C, k, COMMON, nm)
\* may it be seen, or set, by anc (a delegate; 0 = the component itself)?
For(C, k, i, anc) == anc = 0 \/ Nd(C, k).ps[i].rst = <<>> \/ anc \in Range(Nd(C, k).ps[i].rst)
Defined(C, k, g, nm, anc) == DeclIn(C, k, g, nm) # 0 /\ For(C, k, DeclIn(C, k, g, nm), anc)

Val(v) == [t |-> "val", v |-> v]
None == [t |-> "none", v |-> <<>>]
Bad == [t |-> "bad", v |-> <<>>]
Exact(C, k, st, g, nm, anc) ==
  LET S == {i \in DOMAIN st[k] : st[k][i].g = g /\ st[k][i].nm = nm} IN
  IF ~HasGroups(C, k) /\ g # 0 THEN Bad
  ELSE IF S = {} THEN None
  ELSE IF Defined(C, k, g, nm, anc) THEN Val(st[k][CHOOSE i \in S : TRUE]) ELSE Bad
RECURSIVE Cuts(_, _)
Cuts(C, g) == IF g <= 0 \/ C.cut[g] = 0 THEN <<>> ELSE <<C.cut[g]>> \o Cuts(C, C.cut[g])
Fallback(C, k, g, strat) ==
  IF ~HasGroups(C, k) \/ strat = 0 THEN <<>>
  ELSE (IF strat = 2 THEN Cuts(C, g) ELSE <<>>) \o <<DefGroup(C, k)>>
RECURSIVE Search(_, _, _, _, _, _)
Search(C, k, st, gs, nm, anc) ==
  IF gs = <<>> THEN None
  ELSE LET x == Exact(C, k, st, Head(gs), nm, anc) IN
       IF x.t # "none" THEN x ELSE Search(C, k, st, Tail(gs), nm, anc)
\* what node k has for parameter nm of group g
Lookup(C, k, st, g, nm, strat, anc) ==
  LET gs == <<g>> \o Fallback(C, k, g, strat)
      x == Search(C, k, st, gs, nm, anc)
  IN IF x.t # "none" THEN x
     ELSE IF \E h \in Range(gs) : Defined(C, k, h, nm, anc) THEN None ELSE Bad
\* without a group: the default group where there are groups
LookupD(C, k, st, nm, anc) ==
  IF HasGroups(C, k) /\ Nd(C, k).dg = 0 THEN Bad
  ELSE Lookup(C, k, st, IF HasGroups(C, k) THEN Nd(C, k).dg ELSE 0, nm, Nd(C, k).strat, anc)
\* what the component sees: the value of its outermost enclosing aggregate that has one for it
RECURSIVE Find(_, _, _, _, _, _, _), FindD(_, _, _, _, _)
Find(C, k, st, g, nm, strat, anc) ==
  LET l == Lookup(C, k, st, g, nm, strat, anc) IN
  IF l.t = "bad" \/ Nd(C, k).par = 0 THEN l
  ELSE LET p == Find(C, Nd(C, k).par, st, g, nm, strat, k) IN IF p.t = "val" THEN p ELSE l
FindD(C, k, st, nm, anc) ==
  LET l == LookupD(C, k, st, nm, anc) IN
  IF l.t = "bad" \/ Nd(C, k).par = 0 THEN l
  ELSE LET p == FindD(C, Nd(C, k).par, st, nm, k) IN IF p.t = "val" THEN p ELSE l

Put(q, x) == SelectSeq(q, LAMBDA y : ~(y.g = x.g /\ y.nm = x.nm)) \o <<x>>
CanSet(C, k, g, x, anc) ==
  /\ g \in Groups(C, k)
  /\ DeclIn(C, k, g, x.nm) # 0
  /\ LET i == DeclIn(C, k, g, x.nm) IN For(C, k, i, anc) /\ Nd(C, k).ps[i].ty = x.ty /\ Nd(C, k).ps[i].mu = x.mu
\* g = -3: no group named
GroupAt(C, k, g) == IF g # -3 THEN g ELSE IF HasGroups(C, k) THEN DefGroup(C, k) ELSE 0
RECURSIVE SetAt(_, _, _, _, _)      \* the node that takes the value: the outermost that can; 0 = none
SetAt(C, k, g, x, anc) ==
  LET p == IF Nd(C, k).par = 0 THEN 0 ELSE SetAt(C, Nd(C, k).par, g, x, k) IN
  IF p # 0 THEN p ELSE IF CanSet(C, k, GroupAt(C, k, g), x, anc) THEN k ELSE 0

\* can the descriptor be used at all?
DupDecl(C, k) == \E i, j \in DOMAIN Nd(C, k).ps : LET p == Nd(C, k).ps[i]  q == Nd(C, k).ps[j] IN
  i < j /\ p.nm = q.nm /\ (p.g = q.g \/ p.g = COMMON)
DupGroup(C, k) == \E i, j \in DOMAIN Nd(C, k).gs : i < j /\ Nd(C, k).gs[i] = Nd(C, k).gs[j]
BadSetting(C, k) == \E i \in DOMAIN Nd(C, k).ss : LET x == Nd(C, k).ss[i] IN
  \/ ~HasGroups(C, k) /\ x.g # 0
  \/ DeclIn(C, k, x.g, x.nm) = 0
  \/ \E j \in 1..(i-1) : Nd(C, k).ss[j].g = x.g /\ Nd(C, k).ss[j].nm = x.nm
\* an empty array has the type its parameter is declared with
Typed(C, k, x) == IF x.mu = 1 /\ x.v = <<>> /\ DeclIn(C, k, x.g, x.nm) # 0 THEN [x EXCEPT !.ty = Nd(C, k).ps[DeclIn(C, k, x.g, x.nm)].ty] ELSE x
St0(C) == [k \in 1..NC(C) |-> [i \in DOMAIN Nd(C, k).ss |-> Typed(C, k, Nd(C, k).ss[i])]]
Missing(C, k) == \E g \in (Range(Nd(C, k).gs) \cup {p.g : p \in Range(Nd(C, k).ps)}) \ {COMMON} : \E i \in DOMAIN Nd(C, k).ps :
  /\ Nd(C, k).ps[i].g \in {g, COMMON} /\ Nd(C, k).ps[i].man = 1
  /\ Lookup(C, k, St0(C), g, Nd(C, k).ps[i].nm, Nd(C, k).strat, 0).t = "none"
Usable(C) == \A k \in 1..NC(C) : ~DupDecl(C, k) /\ ~DupGroup(C, k) /\ ~BadSetting(C, k) /\ ~Missing(C, k)

Init0(C) == [up |-> FALSE, st |-> St0(C)]
GroupNames(C, k, nm) ==
  {g \in Groups(C, k) \ {COMMON} : Defined(C, k, g, nm, 0)}
  \cup (IF Decl(C, k, COMMON, nm) # 0 /\ Nd(C, k).dg # 0 THEN {Nd(C, k).dg} ELSE {})
RECURSIVE AllGroupNames(_, _, _)
AllGroupNames(C, k, nm) ==
  GroupNames(C, k, nm) \cup (IF Nd(C, k).par # 0 /\ HasGroups(C, k) THEN AllGroupNames(C, Nd(C, k).par, nm) ELSE {})

Apply(C, s, e) ==
  CASE e.op = "pcreate" -> Ret([up |-> Usable(C), st |-> St0(C)], OK(<<IF Usable(C) THEN 0 ELSE -1>>))
    [] e.op = "getp" ->
        LET x == IF e.g = -3 THEN FindD(C, e.k, s.st, e.nm, 0) ELSE Find(C, e.k, s.st, e.g, e.nm, Nd(C, e.k).strat, 0) IN
        IF x.t = "bad" THEN Ret(s, Err("ConfigParamLookupException"))
        ELSE IF x.t = "none" THEN Ret(s, OK(<<-1>>))
        ELSE IF x.v.ty # e.ty \/ x.v.mu # e.mu THEN Ret(s, Err("ConfigException"))
        ELSE Ret(s, OK(<<0>> \o x.v.v))
    [] e.op = "setp" ->
        LET x == [g |-> 0, nm |-> e.nm, ty |-> e.ty, mu |-> e.mu, v |-> e.v]
            k == SetAt(C, e.k, e.g, x, 0)
        IN IF k = 0 THEN Ret(s, OK(<<-1>>))
           ELSE Ret([s EXCEPT !.st[k] = Put(@, [x EXCEPT !.g = GroupAt(C, k, e.g)])], OK(<<0>>))
    [] e.op = "isdef" -> Ret(s, OK(<<IF Defined(C, e.k, IF e.g = -3 THEN 0 ELSE e.g, e.nm, 0) THEN 1 ELSE 0>>))
    [] e.op = "gnames" -> Ret(s, OK(SortN(AllGroupNames(C, e.k, e.nm))))
ParamsOK(C, s) == \A k \in 1..NC(C) : \A i \in DOMAIN s.st[k] :
  LET x == s.st[k][i] IN /\ s.up => DeclIn(C, k, x.g, x.nm) # 0
                         /\ s.up => \A j \in DOMAIN s.st[k] : s.st[k][j].g = x.g /\ s.st[k][j].nm = x.nm => j = i
=============================================================================
