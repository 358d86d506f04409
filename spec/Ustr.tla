-------------------------------- MODULE Ustr --------------------------------
(* Strings that refer to a part of a text (UnicodeStringRef): what covered    *)
(* texts, feature values and subjects are handed out as.  A reference is      *)
(* <<start, length>> in the text of the configuration (code units; <<-1, 0>>  *)
(* refers to nothing); whatever is asked of it depends on its own units only, *)
(* not on those around them.                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Init0(C) == [n |-> 0]                       \* nothing changes

Null(r) == r[1] < 0
Units(C, r) == IF Null(r) THEN <<>> ELSE SubSeq(C.txt, r[1] + 1, r[1] + r[2])
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
\* offsets and lengths outside of the string are brought to its limits
Pin(n, s, l) == LET p == Mx(0, Mn(s, n)) IN <<p, Mx(0, Mn(l, n - p))>>
Part(u, s, l) == LET p == Pin(Len(u), s, l) IN SubSeq(u, p[1] + 1, p[1] + p[2])

Lead(x) == x >= 55296 /\ x < 56320
Trail(x) == x >= 56320 /\ x < 57344
Pair(u, i) == i >= 1 /\ i < Len(u) /\ Lead(u[i]) /\ Trail(u[i + 1])
CodePoint(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)

RECURSIVE Cmp(_, _), Points(_)
\* the first difference decides, then the length
Cmp(a, b) ==
  IF a = <<>> \/ b = <<>> THEN (IF a = b THEN 0 ELSE IF a = <<>> THEN -1 ELSE 1)
  ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Cmp(Tail(a), Tail(b))
Points(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF Pair(u, 1) THEN <<CodePoint(u[1], u[2])>> \o Points(SubSeq(u, 3, Len(u)))
  ELSE <<u[1]>> \o Points(Tail(u))
CmpPoints(a, b) == Cmp(Points(a), Points(b))
Fold(u) == [i \in 1..Len(u) |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]]

\* where b is found in the part of a from s on that is l units long
Found(a, b, s, l) ==
  LET p == Pin(Len(a), s, l) IN
  IF b = <<>> THEN {} ELSE {i \in p[1]..(p[1] + p[2] - Len(b)) : SubSeq(a, i + 1, i + Len(b)) = b}
First(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Last_(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE Utf8(_), Move(_, _, _), Pieces(_, _, _)
Utf8(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET c == ps[1] IN
    (IF c < 128 THEN <<c>>
     ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
     ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
     ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>) \o Utf8(Tail(ps))
\* from offset i over d characters
Move(u, i, d) ==
  IF d > 0 THEN (IF i >= Len(u) THEN i ELSE Move(u, i + (IF Pair(u, i + 1) THEN 2 ELSE 1), d - 1))
  ELSE IF d < 0 THEN (IF i <= 0 THEN i ELSE Move(u, i - (IF Pair(u, i - 1) THEN 2 ELSE 1), d + 1))
  ELSE i
Blank(x) == x \in {32, 9, 10}
RECURSIVE TrimL(_), TrimR(_)
TrimL(u) == IF u # <<>> /\ Blank(u[1]) THEN TrimL(Tail(u)) ELSE u
TrimR(u) == IF u # <<>> /\ Blank(u[Len(u)]) THEN TrimR(SubSeq(u, 1, Len(u) - 1)) ELSE u
Trim(u) == TrimL(TrimR(u))
\* a delimiter ends a piece; the last piece needs none
Pieces(u, D, p) ==
  IF u = <<>> THEN (IF p = <<>> THEN <<>> ELSE <<p>>)
  ELSE IF u[1] \in D THEN <<p>> \o Pieces(Tail(u), D, <<>>) ELSE Pieces(Tail(u), D, Append(p, u[1]))

B(x) == IF x THEN 1 ELSE 0
Answer(C, e) ==
  LET a == Units(C, e.a)
      b == Units(C, e.b)
      m == Len(a)
      bb == SubSeq(b, e.ss + 1, e.ss + e.sl)
  IN
  CASE e.op = "rel" -> LET c == Cmp(a, b) IN <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
    [] e.op = "cmp" -> <<Cmp(a, b)>>
    [] e.op = "cmps" -> <<Cmp(Part(a, e.s, e.l), b)>>
    [] e.op = "cmpss" -> <<Cmp(Part(a, e.s, e.l), bb)>>
    [] e.op = "cpo" -> <<CmpPoints(a, b)>>
    [] e.op = "cpos" -> <<CmpPoints(Part(a, e.s, e.l), b)>>
    [] e.op = "cposs" -> <<CmpPoints(Part(a, e.s, e.l), bb)>>
    [] e.op = "fold" -> <<Cmp(Fold(a), Fold(b))>>
    [] e.op = "folds" -> <<Cmp(Fold(Part(a, e.s, e.l)), Fold(b))>>
    [] e.op = "foldss" -> <<Cmp(Fold(Part(a, e.s, e.l)), Fold(bb))>>
    [] e.op = "starts" -> <<B(IsPrefix(b, a))>>
    [] e.op = "startss" -> <<B(IsPrefix(bb, a))>>
    [] e.op = "ends" -> <<B(IsSuffix(b, a))>>
    [] e.op = "endss" -> <<B(IsSuffix(bb, a))>>
    [] e.op = "ix" -> <<First(Found(a, b, 0, m))>>
    [] e.op = "ixs" -> <<First(Found(a, b, e.s, m))>>
    [] e.op = "ixl" -> <<First(Found(a, b, e.s, e.l))>>
    [] e.op = "ixss" -> <<First(Found(a, bb, e.s, e.l))>>
    [] e.op = "lix" -> <<Last_(Found(a, b, 0, m))>>
    [] e.op = "lixs" -> <<Last_(Found(a, b, e.s, m))>>
    [] e.op = "lixl" -> <<Last_(Found(a, b, e.s, e.l))>>
    [] e.op = "lixss" -> <<Last_(Found(a, bb, e.s, e.l))>>
    [] e.op = "ixc" -> <<First(Found(a, e.u, 0, m))>>
    [] e.op = "ixcs" -> <<First(Found(a, e.u, e.s, m))>>
    [] e.op = "ixcl" -> <<First(Found(a, e.u, e.s, e.l))>>
    [] e.op = "lixc" -> <<Last_(Found(a, e.u, 0, m))>>
    [] e.op = "lixcs" -> <<Last_(Found(a, e.u, e.s, m))>>
    [] e.op = "lixcl" -> <<Last_(Found(a, e.u, e.s, e.l))>>
    [] e.op = "at" -> <<IF e.s \in 0..(m - 1) THEN a[e.s + 1] ELSE 65535>>
    [] e.op = "at32" -> <<IF e.s \notin 0..(m - 1) THEN 65535
                          ELSE IF Pair(a, e.s + 1) THEN CodePoint(a[e.s + 1], a[e.s + 2])
                          ELSE IF Pair(a, e.s) THEN CodePoint(a[e.s], a[e.s + 1]) ELSE a[e.s + 1]>>
    [] e.op = "start32" -> <<IF e.s \notin 0..(m - 1) THEN 0 ELSE IF Pair(a, e.s) THEN e.s - 1 ELSE e.s>>
    [] e.op = "limit32" -> <<IF e.s \notin 0..(m - 1) THEN m ELSE IF Pair(a, e.s) THEN e.s + 1 ELSE e.s>>
    [] e.op = "move" -> <<Move(a, Mx(0, Mn(e.s, m)), e.l)>>
    [] e.op = "ext" -> Part(a, e.s, e.l)
    [] e.op = "extb" -> Part(a, e.s, e.l - e.s)                 \* up to the limit l
    [] e.op = "cap" -> IF m <= e.l THEN <<m>> \o a ELSE <<m>>   \* into room for l units
    [] e.op = "utf8" -> Utf8(Points(a))
    [] e.op = "utf8s" -> Utf8(Points(Part(a, e.s, e.l)))
    [] e.op = "len" -> <<m, B(m = 0), 2 * m>>
    [] e.op = "trim" -> Trim(a)
    [] e.op = "split" ->
         LET all == Pieces(a, ToSet(b), <<>>)
             t == IF e.s = 1 THEN [i \in 1..Len(all) |-> Trim(all[i])] ELSE all
             k == IF e.l = 1 THEN t ELSE SelectSeq(t, LAMBDA x : x # <<>>)
         IN <<Len(k)>> \o FlattenSeq([i \in 1..Len(k) |-> <<Len(k[i])>> \o k[i]])

Apply(C, s, e) == [s |-> s, r |-> [t |-> "ok", v |-> Answer(C, e)]]

\* the laws that the answers obey, whatever the strings (checked for the strings of every configuration)
Laws(C) ==
  LET R == {SubSeq(C.txt, i, j) : i \in 1..Mn(Len(C.txt), 4), j \in 0..Mn(Len(C.txt), 4)} IN
  /\ \A a, b \in R :
       /\ Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) = 0) = (a = b)
       /\ CmpPoints(a, b) = -CmpPoints(b, a)
       /\ (b # <<>> /\ IsPrefix(b, a)) => First(Found(a, b, 0, Len(a))) = 0
       /\ (b # <<>> /\ IsSuffix(b, a)) => Last_(Found(a, b, 0, Len(a))) = Len(a) - Len(b)
       /\ First(Found(a, b, 0, Len(a))) <= Last_(Found(a, b, 0, Len(a)))
  /\ \A a, b, c \in R : Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
=============================================================================
