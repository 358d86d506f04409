----------------------------- MODULE CasStream ------------------------------
(***************************************************************************)
(* Stream access to the data of a subject.  s.sm[i] is stream number i:    *)
(*   k  : "loc" data in the CAS, "rem" data behind a URI, "del" deleted    *)
(*   x  : the subject                                                      *)
(*   st : 0 not open, 1 open, 2 closed by its handler                      *)
(*   by : the bytes, for data that cannot change (a text, a URI's content) *)
(*   pos: the read position, in bytes                                      *)
(* The content of an array is read as it is at the time of the read; a     *)
(* text is delivered in UTF-8.  Elements of a local stream have the order  *)
(* of this machine; the content behind a URI is big-endian and is turned   *)
(* round by a read of elements of 2, 4 or 8 bytes.  The handler of the     *)
(* schemes C.k.schemes has the URI's own bytes for content.                *)
(***************************************************************************)
EXTENDS CasSer

RECURSIVE Utf8(_, _)
Hi(u) == u >= 55296 /\ u < 56320
Lo(u) == u >= 56320 /\ u < 57344
Utf8(u, i) ==
  IF i > Len(u) THEN <<>>
  ELSE LET a == u[i] IN
    IF a < 128 THEN <<a>> \o Utf8(u, i + 1)
    ELSE IF a < 2048 THEN <<192 + (a \div 64), 128 + (a % 64)>> \o Utf8(u, i + 1)
    ELSE IF Hi(a) /\ i < Len(u) /\ Lo(u[i + 1])
      THEN LET p == 65536 + (a - 55296) * 1024 + (u[i + 1] - 56320)
           IN <<240 + (p \div 262144), 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>> \o Utf8(u, i + 2)
    ELSE <<224 + (a \div 4096), 128 + ((a \div 64) % 64), 128 + (a % 64)>> \o Utf8(u, i + 1)
WellFormed(u) == \A i \in 1..Len(u) :
  /\ Hi(u[i]) => i < Len(u) /\ Lo(u[i + 1])
  /\ Lo(u[i]) => i > 1 /\ Hi(u[i - 1])

\* n elements of w bytes, least significant byte first
LE(n, w) == [k \in 1..w |-> (n \div 256^(k - 1)) % 256]
Wide(tab, y) == tab[CHOOSE i \in 1..Len(tab) : tab[i].k = y].b
Unit(k) == CASE k \in {"aint", "afloat"} -> 4 [] k = "ashort" -> 2 [] k \in {"along", "adouble"} -> 8 [] OTHER -> 1
ElBytes(C, k, y) == CASE k = "aint" -> LE(y % 65536, 2) \o LE(y \div 65536, 2)
                      [] k = "ashort" -> LE(y, 2)
                      [] k \in {"abyte", "abool"} -> LE(y, 1)
                      [] k = "afloat" -> Wide(C.fb, y)
                      [] k = "along" -> Wide(C.lb, y)
                      [] k = "adouble" -> Wide(C.db, y)
Streamable == {"aint", "afloat", "abool", "abyte", "ashort", "along", "adouble"}
ArrOf(s, m) == s.fs[s.fs[m.x].f[F_SARRAY]]
IsText(s, m) == s.fs[m.x].f[F_SSTRING] # 0
\* what the subject's data are
DataKind(C, s, m) == IF IsText(s, m) THEN "text" ELSE Kind(C, ArrOf(s, m).ty)
Bytes(C, s, m) ==
  IF m.k = "rem" \/ IsText(s, m) THEN m.by
  ELSE LET k == DataKind(C, s, m) IN FoldLeft(LAMBDA a, y : a \o ElBytes(C, k, y), <<>>, ArrOf(s, m).el)

BadStream == Err("SofaDataStreamException")
GetStream(C, s, n) ==
  LET f == s.fs[n].f
      k == IF f[F_SURI] # 0 THEN "rem" ELSE "loc"
  IN IF ~HasData(s, n) THEN Ret(s, OK(<<0>>))
     ELSE Ret([s EXCEPT !.sm = Append(@, [k |-> k, x |-> n, st |-> 0, by |-> <<>>, pos |-> 0])],
              OK(<<Len(s.sm) + 1, IF k = "rem" THEN 2 ELSE 1>>))
Colon(u) == { i \in 1..Len(u) : u[i] = 58 }
Scheme(u) == SubSeq(u, 1, (CHOOSE i \in Colon(u) : \A j \in Colon(u) : i <= j) - 1)
Open(C, s, i) ==
  LET m == s.sm[i]
      uri == Units(C, s.fs[m.x].f[F_SURI])
      txt == Units(C, s.fs[m.x].f[F_SSTRING])
      opened(by) == Ret([s EXCEPT !.sm[i].st = 1, !.sm[i].by = by, !.sm[i].pos = 0], OK(<<0>>))
  IN IF m.k = "rem" THEN
       IF Colon(uri) = {} \/ ~(Scheme(uri) \in ToSet(C.k.schemes)) THEN Ret(s, BadStream) ELSE opened(Utf8(uri, 1))
     ELSE IF IsText(s, m) THEN IF WellFormed(txt) THEN opened(Utf8(txt, 1)) ELSE Ret(s, BadStream)
     ELSE IF DataKind(C, s, m) \in Streamable THEN opened(<<>>) ELSE Ret(s, BadStream)
Close(C, s, i) ==
  LET m == s.sm[i] IN
  Ret([s EXCEPT !.sm[i].pos = 0, !.sm[i].st = IF m.k = "loc" THEN 0 ELSE IF m.st = 0 THEN 0 ELSE 2], Done)

Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Turned(b, es) == FoldLeft(LAMBDA a, k : a \o Rev(SubSeq(b, k * es + 1, k * es + es)), <<>>,
                          [k \in 1..(Len(b) \div es) |-> k - 1])
SizeOf(C, s, i) ==
  LET m == s.sm[i] IN
  IF m.k = "rem" /\ m.st = 0 THEN Ret(s, BadStream)
  ELSE IF m.st # 1 THEN Ret(s, OK(<<0 - 1, 0 - 1>>))
  ELSE LET n == Len(Bytes(C, s, m)) IN Ret(s, OK(<<n, n - m.pos>>))
Fits(k, es) == CASE k = "text" -> es = 1 [] k \in {"aint", "afloat"} -> es = 4 [] OTHER -> TRUE
Read(C, s, e) ==
  LET m == s.sm[e.i]
      b == Bytes(C, s, m)
      nb == IF e.es * e.n < Len(b) - m.pos THEN e.es * e.n ELSE Len(b) - m.pos
      got == SubSeq(b, m.pos + 1, m.pos + nb)
      out == IF m.k = "rem" /\ e.es > 1 THEN Turned(got, e.es) ELSE got
  IN IF m.st = 0 THEN Ret(s, BadStream)
     ELSE IF m.st = 2 \/ m.pos = Len(b) THEN Ret(s, OK(<<0 - 1>>))
     ELSE IF m.k = "loc" /\ ~Fits(DataKind(C, s, m), e.es) THEN Ret(s, BadStream)
     ELSE Ret([s EXCEPT !.sm[e.i].pos = m.pos + nb], OK(<<nb \div e.es>> \o out))
\* org: 0 from the start, 1 from the position, 2 from the end.  A local stream counts back from the end.
Seek(C, s, e) ==
  LET m == s.sm[e.i]
      n == Len(Bytes(C, s, m))
      to == CASE e.org = 0 -> e.off [] e.org = 1 -> m.pos + e.off
              [] e.org = 2 -> IF m.k = "loc" THEN n - e.off ELSE n + e.off [] OTHER -> 0 - 1
  IN IF m.st = 0 THEN Ret(s, BadStream)
     ELSE IF m.st = 2 THEN Ret(s, OK(<<0 - 1>>))
     ELSE IF m.k = "loc" /\ ~(e.org \in {0, 1, 2}) THEN Ret(s, BadStream)
     ELSE IF to \in 0..n THEN Ret([s EXCEPT !.sm[e.i].pos = to], OK(<<0>>))
     ELSE Ret(s, OK(<<0 - 1>>))
DataPtr(C, s, i) ==
  LET m == s.sm[i] IN
  IF m.k = "rem" /\ m.st = 0 THEN Ret(s, BadStream)
  ELSE IF m.st # 1 THEN Ret(s, OK(<<0 - 1>>))
  ELSE LET b == Bytes(C, s, m) IN Ret(s, OK(<<Len(b)>> \o b))
\* handlers that exist and are open
Live(s) == Cardinality({ i \in 1..Len(s.sm) : s.sm[i].k = "rem" /\ s.sm[i].st = 1 })

StreamOps == {"sget", "sopen", "sclose", "ssize", "sread", "sseek", "sptr", "sdel", "slive", "sgrow"}
StreamApply(C, s, e) ==
  CASE e.op = "sget" -> LET n == IF e.x = 0 THEN s.vw[W(s, e.w)].sofa ELSE Node(s, e.x)
                        IN IF n = 0 THEN Ret(s, NoSofa) ELSE GetStream(C, s, n)
    [] e.op = "sopen" -> Open(C, s, e.i)
    [] e.op = "sclose" -> Close(C, s, e.i)
    [] e.op = "ssize" -> SizeOf(C, s, e.i)
    [] e.op = "sread" -> Read(C, s, e)
    [] e.op = "sseek" -> Seek(C, s, e)
    [] e.op = "sptr" -> DataPtr(C, s, e.i)
    [] e.op = "sdel" -> Ret([s EXCEPT !.sm[e.i] = [@ EXCEPT !.k = "del", !.st = 0]], Done)
    \* structures nobody holds
    [] e.op = "sgrow" -> Ret(s, Done)
    [] e.op = "slive" -> Ret(s, OK(<<Live(s)>>))

\* the position of an open stream lies within its data
StreamsOK(C, s) == \A i \in 1..Len(s.sm) :
  s.sm[i].k # "del" /\ s.sm[i].st = 1 => s.sm[i].pos \in 0..Len(Bytes(C, s, s.sm[i]))
=============================================================================
