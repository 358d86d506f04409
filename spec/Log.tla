-------------------------------- MODULE Log ---------------------------------
(* Logging: the level and the loggers of the resource manager, the facilities *)
(* that components log through, the stream and the last error of each.        *)
(* Types of entries: 0 message, 1 warning, 2 error.  A text is a sequence of  *)
(* pieces; an entry is <<logger, type, origin, code>> \o pieces \o <<-1>>.    *)
(* Facility 1 is that of the framework.                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NoErr == [id |-> 0, o |-> 0, m |-> <<>>]
Fac(n, l) == [nm |-> n, lv |-> l, err |-> NoErr, buf |-> <<>>, bt |-> 0]
Init0(C) == [lv |-> 0, lg |-> <<>>, fa |-> [f \in 1..C.nf |-> IF f = 1 THEN Fac(0, 0) ELSE <<>>]]
Alive(s, f) == s.fa[f] # <<>>

\* an entry goes to every registered logger, in their order, if it is serious enough for the facility
Entries(s, f, y, m, c) ==
  IF y < s.fa[f].lv THEN <<>>
  ELSE FlattenSeq([i \in 1..Len(s.lg) |-> <<s.lg[i], y, s.fa[f].nm, c>> \o m \o <<-1>>])
\* and an error is remembered, logged or not
Unspecified(C) == C.unspec
Remember(C, s, f, y, m, c) ==
  IF y # 2 THEN s
  ELSE [s EXCEPT !.fa[f].err = [id |-> IF c = 0 THEN Unspecified(C) ELSE c, o |-> s.fa[f].nm, m |-> m]]

Ok(s, v) == [s |-> s, r |-> [t |-> "ok", v |-> v]]
Put(C, s, f, y, m, c) == Ok(Remember(C, s, f, y, m, c), Entries(s, f, y, m, c))
\* what has been streamed and not ended yet is an entry of the type it was started with
Flush(C, s, f) ==
  LET b == s.fa[f].buf
  IN IF b = <<>> THEN Ok(s, <<>>) ELSE Put(C, [s EXCEPT !.fa[f].buf = <<>>], f, s.fa[f].bt, b, 0)
Pour(C, s, f, ps, end) ==
  LET t == [s EXCEPT !.fa[f].buf = @ \o ps] IN IF end > 0 THEN Flush(C, t, f) ELSE Ok(t, <<>>)
Then(a, b) == [b EXCEPT !.r.v = a.r.v \o @]

RECURSIVE Merge(_, _)
\* can the entries es be a merge of the threads' own sequences?
Merge(es, ths) ==
  IF es = <<>> THEN \A k \in 1..Len(ths) : ths[k] = <<>>
  ELSE \E k \in 1..Len(ths) : ths[k] # <<>> /\ ths[k][1] = es[1] /\ Merge(Tail(es), [ths EXCEPT ![k] = Tail(@)])
RECURSIVE Split(_, _)
Split(v, cur) == IF v = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                 ELSE IF v[1] = -1 THEN <<cur>> \o Split(Tail(v), <<>>) ELSE Split(Tail(v), Append(cur, v[1]))
\* threads log at the same time: every logger gets every entry whole, each thread's in its order, and all loggers the same order
Together(s, e) ==
  LET es == Split(e.rv, <<>>)
      at(g) == SelectSeq(es, LAMBDA x : x[1] = g)
      strip(q) == [i \in 1..Len(q) |-> SubSeq(q[i], 2, Len(q[i]))]
      want == [k \in 1..Len(e.ths) |->
                 LET th == e.ths[k]
                     on == SelectSeq(th.ms, LAMBDA x : x[1] >= s.fa[th.f].lv)
                 IN [i \in 1..Len(on) |-> <<on[i][1], s.fa[th.f].nm, on[i][3], on[i][2]>>]]
      ok == /\ \A x \in Range(es) : Len(x) = 5 /\ x[1] \in Range(s.lg)
            /\ \A i \in 1..Len(s.lg) : Merge(strip(at(s.lg[i])), want)
            /\ \A i, j \in 1..Len(s.lg) : strip(at(s.lg[i])) = strip(at(s.lg[j]))
  IN Ok(s, IF ok THEN e.rv ELSE <<-5>>)

Apply(C, s, e) ==
  CASE e.op = "lv" -> Ok([s EXCEPT !.lv = e.l], <<>>)
    [] e.op = "glv" -> Ok(s, <<s.lv>>)
    [] e.op = "reg" -> Ok([s EXCEPT !.lg = Append(@, e.lo)], <<>>)
    [] e.op = "unreg" ->
         IF e.lo \notin Range(s.lg) THEN [s |-> s, r |-> [t |-> "Uima_runtime_error", v |-> <<>>]]
         ELSE LET i == CHOOSE k \in 1..Len(s.lg) : s.lg[k] = e.lo /\ \A j \in 1..(k - 1) : s.lg[j] # e.lo
              IN Ok([s EXCEPT !.lg = RemoveAt(@, i)], <<>>)
    \* a facility keeps the level that is in force when it is made
    [] e.op = "new" -> Ok([s EXCEPT !.fa[e.f] = Fac(e.n, IF e.l < 0 THEN s.lv ELSE e.l)], <<>>)
    [] e.op = "del" -> LET a == Flush(C, s, e.f) IN [a EXCEPT !.s.fa[e.f] = <<>>]
    [] e.op = "log" -> Put(C, s, e.f, e.y, e.m, e.c)
    \* an error object is remembered whatever the type of the entry (0: that there is none)
    [] e.op = "loge" -> Ok([s EXCEPT !.fa[e.f].err = [id |-> e.id, o |-> 0, m |-> IF e.id = 0 THEN <<>> ELSE e.m]], Entries(s, e.f, e.y, IF e.id = 0 THEN <<>> ELSE e.m, 0))
    [] e.op = "st" -> LET a == Flush(C, s, e.f) IN Then(a, Pour(C, [a.s EXCEPT !.fa[e.f].bt = e.y], e.f, e.m, e.fl))
    [] e.op = "more" -> Pour(C, s, e.f, e.m, e.fl)
    [] e.op = "err" -> LET x == s.fa[e.f].err IN Ok(s, <<x.id, x.o>> \o x.m)
    [] e.op = "errs" -> LET x == s.fa[e.f].err IN Ok(s, IF x.id = 0 THEN <<>> ELSE <<x.o>> \o x.m)
    [] e.op = "par" -> Together(s, e)

\* what is pending has a type; the framework's facility logs everything
LogOK(C, s) == /\ s.fa[1] # <<>> /\ s.fa[1].lv = 0
               /\ \A f \in 1..C.nf : Alive(s, f) => (s.fa[f].err.id = 0 => s.fa[f].err.m = <<>>)
\* exploration
En(C, s, e) ==
  CASE e.op = "new" -> ~Alive(s, e.f)
    [] e.op \in {"lv", "glv", "unreg"} -> TRUE
    [] e.op = "reg" -> Len(s.lg) < 2
    [] e.op = "more" -> Alive(s, e.f) /\ s.fa[e.f].buf # <<>> /\ Len(s.fa[e.f].buf) < 3
    [] e.op = "par" -> \A k \in 1..Len(e.ths) : Alive(s, e.ths[k].f)
    [] OTHER -> Alive(s, e.f)
Kept(C, s, t) == s = t
=============================================================================
