------------------------------ MODULE Declared ------------------------------
(* The indexes and the order of types that the descriptors of a tree of       *)
(* components declare, in their own text or in what it imports, and what the  *)
(* CASes of the engine made from them have.                                   *)
(* Types: 1 TOP, 2 Annotation, 3 below 2, 4 below 3, 5 below 1, 6 below 5;    *)
(* others do not exist.  Features: 1 begin, 2 end, 3 of type 3, 4 of type 4,  *)
(* 5 of type 5; key 0 is the order of types.  A definition of an index is     *)
(* [l label, k kind, ty, ks: <<feature, reverse>>*]; label 1 is built in.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Parent == <<0, 1, 2, 3, 1, 5>>
Dom == <<2, 2, 3, 4, 5>>
\* documents that are imported: by location; 0: a location where there is nothing, -1: not by location
Named(im) == {x \in ToSet(im) : x > 0}
RECURSIVE Sub(_, _), Reach(_, _, _)
Sub(a, b) == b # 0 /\ (a = b \/ Sub(a, Parent[b]))
Known(t) == t \in 1..6
Builtin == [l |-> 1, k |-> 1, ty |-> 2, ks |-> <<<<1, 0>>, <<2, 1>>, <<0, 0>>>>]

\* what documents import, each once however often and in whatever circle
Reach(F, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == UNION {Named(F[x].im) : x \in todo} IN Reach(F, n \ (seen \cup todo), seen \cup todo)
Files(F, im) == SetToSeq(Reach(F, Named(im), {}))
\* definitions of component k, and of the whole tree
Own(C, k) == LET c == C.comps[k] IN c.ix \o FlattenSeq([i \in 1..Len(Files(C.files, c.im)) |-> C.files[Files(C.files, c.im)[i]].ix])
RECURSIVE Defs(_, _)
Defs(C, k) == Own(C, k) \o FlattenSeq([i \in 1..Len(C.comps[k].kids) |-> Defs(C, C.comps[k].kids[i])])
Chains(C) == C.own \o FlattenSeq([i \in 1..Len(Files(C.pfiles, C.im)) |-> C.pfiles[Files(C.pfiles, C.im)[i]].ch])

\* one index may be defined several times in a tree if it is the same; the keys of a bag do not matter
Same(d, e) == d.k = e.k /\ d.ty = e.ty /\ (d.k = 3 \/ d.ks = e.ks)
Appropriate(d) == \A i \in 1..Len(d.ks) : d.ks[i][1] = 0 \/ (d.ks[i][1] \in 1..5 /\ Sub(Dom[d.ks[i][1]], d.ty))
Edges(C) == LET ch == Chains(C) IN UNION {{<<ch[i][j], ch[i][j + 1]>> : j \in 1..(Len(ch[i]) - 1)} : i \in 1..Len(ch)}
RECURSIVE Close(_)
Close(E) == LET n == E \cup {<<x[1], y[2]>> : <<x, y>> \in {p \in E \X E : p[1][2] = p[2][1]}} IN IF n = E THEN E ELSE Close(n)
\* types that lead a chain alone are not looked at
Errors(C) ==
  LET D == Defs(C, 1)
      twice == \E k \in 1..Len(C.comps) : LET o == Own(C, k) IN \E i, j \in 1..Len(o) : i < j /\ o[i].l = o[j].l
      E == Edges(C)
      I == UNION {ToSet(C.comps[k].im) \cup UNION {ToSet(C.files[x].im) : x \in ToSet(Files(C.files, C.comps[k].im))} : k \in 1..Len(C.comps)}
           \cup ToSet(C.im) \cup UNION {ToSet(C.pfiles[x].im) : x \in ToSet(Files(C.pfiles, C.im))}
  IN (IF 0 \in I THEN {"missing"} ELSE {}) \cup (IF -1 \in I THEN {"byname"} ELSE {})
     \cup (IF twice THEN {"twice"} ELSE {})
     \cup (IF \E i \in 1..Len(D) : ~Known(D[i].ty) THEN {"type"} ELSE {})
     \cup (IF \E e \in E : ~Known(e[1]) \/ ~Known(e[2]) THEN {"type"} ELSE {})
     \cup (IF \E i \in 1..Len(D) : Known(D[i].ty) /\ ~Appropriate(D[i]) THEN {"feature"} ELSE {})
     \cup (IF \E i, j \in 1..Len(D) : D[i].l = D[j].l /\ ~Same(D[i], D[j]) THEN {"incompatible"} ELSE {})
     \cup (IF \E i \in 1..Len(D) : D[i].l = 1 /\ ~Same(D[i], Builtin) THEN {"incompatible"} ELSE {})
     \cup (IF \E e \in Close(E) : e[1] = e[2] THEN {"conflict"} ELSE {})

DefOf(C, l) == IF l = 1 THEN Builtin ELSE LET D == Defs(C, 1) IN D[CHOOSE i \in 1..Len(D) : D[i].l = l]
\* 0: that of the Sofas, not looked at
Labels(C) == {0, 1} \cup {d.l : d \in ToSet(Defs(C, 1))}

\* structures: [ty, f: the values of features 1 to 5]
RECURSIVE Rel(_, _, _, _)
\* -1, 1: before, after; 0: equal; 2: which of them comes first is not declared
Rel(P, ks, a, b) ==
  IF ks = <<>> THEN 0
  ELSE LET q == ks[1] IN
    IF q[1] = 0 THEN
      (IF a.ty = b.ty THEN Rel(P, Tail(ks), a, b)
       ELSE IF <<a.ty, b.ty>> \in P THEN -1 ELSE IF <<b.ty, a.ty>> \in P THEN 1 ELSE 2)
    ELSE LET x == a.f[q[1]]
             y == b.f[q[1]]
         IN IF x = y THEN Rel(P, Tail(ks), a, b) ELSE IF (x < y) = (q[2] = 0) THEN -1 ELSE 1
Listed(C, d, v) ==
  LET P == Close(Edges(C))
      in == {i \in 1..Len(C.pop) : Sub(d.ty, C.pop[i].ty)}
      ks == IF d.k = 3 THEN <<>> ELSE d.ks
      R == [p \in in \X in |-> Rel(P, ks, C.pop[p[1]], C.pop[p[2]])]
  IN /\ ToSet(v) \subseteq in /\ Cardinality(ToSet(v)) = Len(v)
     \* a sorted index and a bag have all, a set one of those of a type that are equal
     /\ IF d.k = 2 THEN LET eq(i, j) == C.pop[i].ty = C.pop[j].ty /\ R[i, j] = 0
                        IN (\A i \in in : \E j \in ToSet(v) : eq(i, j)) /\ (\A i, j \in ToSet(v) : i # j => ~eq(i, j))
        ELSE ToSet(v) = in
     /\ d.k = 1 => \A i, j \in 1..Len(v) : i < j => R[v[i], v[j]] # 1

Init0(C) == [up |-> FALSE, ok |-> Errors(C) = {}, er |-> Errors(C)]
Ok(s, v) == [s |-> s, r |-> [t |-> "ok", v |-> v]]
Apply(C, s, e) ==
  CASE e.op = "build" ->
         IF s.ok THEN Ok([s EXCEPT !.up = TRUE], <<0>>)
         ELSE Ok(s, IF \E x \in s.er : e.rv = <<C.id[x]>> THEN e.rv ELSE <<-1>>)
    [] e.op = "ixids" -> Ok(s, IF ToSet(e.rv) = Labels(C) /\ Len(e.rv) = Cardinality(Labels(C)) THEN e.rv ELSE <<-2>>)
    [] e.op = "ixall" ->
         IF e.l \notin Labels(C) THEN [s |-> s, r |-> [t |-> "InvalidIndexIDException", v |-> <<>>]]
         ELSE LET d == DefOf(C, e.l) IN
              Ok(s, IF e.rv # <<>> /\ e.rv[1] = d.ty /\ Listed(C, d, Tail(e.rv)) THEN e.rv ELSE <<d.ty, -3>>)
DeclaredOK(C, s) == (s.up => s.ok) /\ (\A e \in Close(Edges(C)) : <<e[2], e[1]>> \in Close(Edges(C)) => "conflict" \in s.er)
=============================================================================
