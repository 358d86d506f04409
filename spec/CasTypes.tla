------------------------------ MODULE CasTypes ------------------------------
(***************************************************************************)
(* The static part of a CAS: types and features.  Built-in types and       *)
(* features have the fixed numbers the library gives them; user types are  *)
(* numbered 37.. and user features 19.. in order of declaration.           *)
(* A configuration C is a record:                                          *)
(*   C.ut : sequence of [p |-> parent type, al |-> allowed string tokens]  *)
(*   C.uf : sequence of [d |-> introducing type, r |-> range type]         *)
(*   C.ix : sequence of index definitions (see CasIndex)                   *)
(*   C.pr : sequence of type-priority chains (sequences of types)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NBT == 36
NBF == 18
TOP == 1   INTTYPE == 2   FLTTYPE == 3   STRTYPE == 4   ARRAYBASE == 5   FSARRAY == 6
SOFA == 33 ANNBASE == 34  ANNOT == 35  DOCANN == 36

BP == << 0, 1, 1, 1, 1, 5, 5, 5, 5, 1, 10, 11, 11, 10, 14, 14, 10, 17, 17, 10, 20, 20,
         1, 1, 1, 1, 1, 5, 5, 5, 5, 5, 1, 1, 34, 35 >>
BK == << "top", "int", "float", "str", "abase", "afs", "afloat", "aint", "astr",
         "lbase", "lfs", "efs", "nfs", "lfloat", "efloat", "nfloat", "lint", "eint", "nint",
         "lstr", "estr", "nstr", "bool", "byte", "short", "long", "double",
         "abool", "abyte", "ashort", "along", "adouble", "sofa", "annbase", "ann", "doc" >>
BFD == << 13, 13, 16, 16, 19, 19, 22, 22, 33, 33, 33, 33, 33, 33, 35, 35, 35, 36 >>
BFR == << 1, 11, 3, 14, 2, 17, 4, 20, 2, 4, 4, 1, 4, 4, 33, 2, 2, 4 >>

F_SOFANUM == 9  F_SOFAID == 10 F_MIME == 11 F_SARRAY == 12 F_SSTRING == 13 F_SURI == 14
F_SOFA == 15    F_BEGIN == 16  F_END == 17  F_LANG == 18

NT(C) == NBT + Len(C.ut)
NF(C) == NBF + Len(C.uf)
Parent(C, t) == IF t <= NBT THEN BP[t] ELSE C.ut[t - NBT].p
Kind(C, t) == IF t <= NBT THEN BK[t]
              ELSE IF C.ut[t - NBT].p = STRTYPE THEN "strsub" ELSE "fs"
Dom(C, f) == IF f <= NBF THEN BFD[f] ELSE C.uf[f - NBF].d
Rng(C, f) == IF f <= NBF THEN BFR[f] ELSE C.uf[f - NBF].r
Allowed(C, t) == ToSet(C.ut[t - NBT].al)

RECURSIVE Subsumes(_, _, _)
Subsumes(C, a, b) == b # 0 /\ (a = b \/ Subsumes(C, a, Parent(C, b)))

Approp(C, t, f) == Subsumes(C, Dom(C, f), t)
FeatSet(C, t) == { f \in 1..NF(C) : Approp(C, t, f) }
FeatSeq(C, t) == SelectSeq([f \in 1..NF(C) |-> f], LAMBDA f : Approp(C, t, f))

PrimKinds == {"int", "float", "str", "strsub", "bool", "byte", "short", "long", "double"}
ArrKinds == {"afs", "aint", "afloat", "astr", "abool", "abyte", "ashort", "along", "adouble"}
NEListKinds == {"nfs", "nint", "nfloat", "nstr"}
EListKinds == {"efs", "eint", "efloat", "estr"}

\* the accessor kind of a range type: which family of get/set calls applies
AccKind(C, t) == LET k == Kind(C, t)
                 IN IF k \in {"str", "strsub"} THEN "str"
                    ELSE IF k \in PrimKinds THEN k ELSE "ref"
FeatAcc(C, f) == AccKind(C, Rng(C, f))

RECURSIVE Depth(_, _)
Depth(C, t) == IF t = 0 THEN 0 ELSE 1 + Depth(C, Parent(C, t))
RECURSIVE CommonSuper(_, _, _)
CommonSuper(C, a, b) == IF Subsumes(C, a, b) THEN a ELSE CommonSuper(C, Parent(C, a), b)

ArrType(k) == CASE k = "ref" -> 6 [] k = "float" -> 7 [] k = "int" -> 8 [] k = "str" -> 9
                [] k = "bool" -> 28 [] k = "byte" -> 29 [] k = "short" -> 30
                [] k = "long" -> 31 [] k = "double" -> 32
\* list family of an element kind: the base list type; empty = +1, non-empty = +2
ListBase(k) == CASE k = "ref" -> 11 [] k = "float" -> 14 [] k = "int" -> 17 [] k = "str" -> 20
ListHead(k) == CASE k = "ref" -> 1 [] k = "float" -> 3 [] k = "int" -> 5 [] k = "str" -> 7
ListTail(k) == ListHead(k) + 1

R(t, v) == [t |-> t, v |-> v]
OK(v) == R("ok", v)
Done == R("ok", <<>>)
Err(c) == R(c, <<>>)
B2I(b) == IF b THEN 1 ELSE 0
=============================================================================
