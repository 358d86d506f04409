-------------------------------- MODULE Err ---------------------------------
(* Error messages, error information and exceptions: what they hold and say.  *)
(* A text is the sequence of its runs: <<character, length, ...>>.  A message *)
(* is the number of a pattern with parameters; C.tp gives the patterns of the *)
(* numbers used, each the characters of its text, % and a number standing for *)
(* a parameter, %% for %.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NoMsg(C) == [id |-> C.none, ps |-> <<>>]
NoErr(C) == [id |-> 0, rec |-> TRUE, m |-> NoMsg(C), cx |-> <<>>]
Init0(C) == [m |-> [k \in 1..4 |-> NoMsg(C)], i |-> [k \in 1..4 |-> NoErr(C)]]

\* runs put together; neighbouring runs of one character are one run
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a) - 1] = b[1] THEN SubSeq(a, 1, Len(a) - 2) \o <<b[1], a[Len(a)] + b[2]>> \o SubSeq(b, 3, Len(b))
             ELSE a \o b
Pct == 37
Digit(c) == c \in 48..57
Unknown == <<63, 3>>                                       \* ???
RECURSIVE Num(_, _, _), Subst(_, _, _)
\* the number that begins at k: its value and where it ends
Num(t, k, n) == IF k <= Len(t) /\ Digit(t[k]) THEN Num(t, k + 1, 10 * n + t[k] - 48) ELSE <<n, k>>
Subst(t, k, ps) ==
  IF k > Len(t) THEN <<>>
  ELSE IF t[k] # Pct THEN Cat(<<t[k], 1>>, Subst(t, k + 1, ps))
  ELSE IF k < Len(t) /\ t[k + 1] = Pct THEN Cat(<<Pct, 1>>, Subst(t, k + 2, ps))
  ELSE LET q == Num(t, k + 1, 0)
       IN Cat(IF q[1] \in 1..Len(ps) THEN ps[q[1]] ELSE Unknown, Subst(t, q[2], ps))
Pattern(C, id) == LET k == CHOOSE j \in 1..Len(C.ids) : C.ids[j] = id IN C.tp[k]
Text(C, m) == Subst(Pattern(C, m.id), 1, m.ps)
Params(ps) == FlattenSeq([k \in 1..Len(ps) |-> ps[k] \o <<-1>>])

\* classes of exceptions: the parent of each, 0 the root
Up == <<0, 0, 1, 1, 2, 4, 2, 7, 0, 9, 0>>
RECURSIVE Above(_)
Above(c) == IF c = 0 THEN {0} ELSE {c} \cup Above(Up[c])

Ok(s, v) == [s |-> s, r |-> [t |-> "ok", v |-> v]]
Ps(e) == [k \in 1..Len(e.ps) |-> e.ps[k].t]
Apply(C, s, e) ==
  CASE e.op \in {"mk", "vec"} -> Ok([s EXCEPT !.m[e.m] = [id |-> e.id, ps |-> Ps(e)]], <<>>)
    [] e.op = "add" -> Ok([s EXCEPT !.m[e.m].ps = @ \o Ps(e)], <<>>)
    [] e.op = "mcp" -> Ok([s EXCEPT !.m[e.m] = s.m[e.o]], <<>>)
    [] e.op = "mrs" -> Ok([s EXCEPT !.m[e.m] = NoMsg(C)], <<>>)
    [] e.op = "str" -> Ok(s, Text(C, s.m[e.m]))
    [] e.op = "prm" -> Ok(s, <<s.m[e.m].id>> \o Params(s.m[e.m].ps))
    [] e.op = "in" -> Ok([s EXCEPT !.i[e.i] = [id |-> e.id, rec |-> e.sev = 1, m |-> s.m[e.m], cx |-> <<>>]], <<>>)
    [] e.op \in {"idef", "irs"} -> Ok([s EXCEPT !.i[e.i] = NoErr(C)], <<>>)
    [] e.op = "icp" -> Ok([s EXCEPT !.i[e.i] = s.i[e.o]], <<>>)
    [] e.op = "setm" -> Ok([s EXCEPT !.i[e.i].m = s.m[e.m]], <<>>)
    [] e.op = "seti" -> Ok([s EXCEPT !.i[e.i].id = e.id], <<>>)
    [] e.op = "sets" -> Ok([s EXCEPT !.i[e.i].rec = (e.sev = 1)], <<>>)
    [] e.op = "ctx" -> Ok([s EXCEPT !.i[e.i].cx = Append(@, s.m[e.m])], <<>>)
    [] e.op = "get" -> LET x == s.i[e.i] IN Ok(s, <<x.id, IF x.rec THEN 1 ELSE 0, Len(x.cx)>>)
    [] e.op = "imsg" -> Ok(s, Text(C, s.i[e.i].m))
    [] e.op = "ictx" -> LET x == s.i[e.i].cx IN Ok(s, IF e.k + 1 \in 1..Len(x) THEN Text(C, x[e.k + 1]) ELSE <<-1>>)
    \* number, message and contexts; no error says nothing of them
    [] e.op = "istr" -> LET x == s.i[e.i] IN Ok(s, IF x.id = 0 THEN <<0>> ELSE <<2 + Len(x.cx)>>)
    \* what is caught is what was thrown, with the contexts it was given on the way
    [] e.op = "throw" ->
         LET x == s.i[e.i]
             n == (e.how % 2) + (e.how \div 2)
             v == [x EXCEPT !.cx = @ \o [k \in 1..n |-> s.m[e.m]]]
         IN Ok([s EXCEPT !.i[e.o] = v], SetToSortSeq(Above(e.c), <) \o <<-1, 1, 1>>)

ErrOK(C, s) == /\ \A k \in 1..4 : s.m[k].id \in Range(C.ids)
               /\ \A k \in 1..4 : s.i[k].m.id \in Range(C.ids) /\ \A x \in Range(s.i[k].cx) : x.id \in Range(C.ids)
=============================================================================
