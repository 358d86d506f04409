"""The spaces that are explored exhaustively (mc.py)."""
import random, itertools
import vals
from cfg import *
from mc import Space, g

T = vals.TOK
A, B, X, E, Y = 37, 38, 39, 40, 41
FI, FS, FR, FA, FL, FX, FT, FG = 19, 20, 21, 22, 23, 24, 25, 26
def small(ix=(), pr=()):
    """A with an integer, an enumerated string, references to A, to an array and to a list; B below A with a string and a long; annotations X, and Y below X"""
    c = Cfg([(1, []), (A, []), (35, []), (4, [T["green"], T["red"]]), (X, [])],
            [(A, 2), (A, E), (A, A), (A, 6), (A, 17), (X, 2), (B, 4), (B, 26)],
            list(ix) + [(1, "sorted", [(0, 0)])], pr)
    return c
def prio(c): return dict(op="prio", n=len(c.ix), ts=c.priotypes())
def sset(x, f, k, y, **a): return g(dict(op="set", x=x, f=f, k=k, y=y, **({} if k == "ref" else {"val": vals.enc(k, y)})), h=max(x, y if k == "ref" else 0), **a)
def aset(x, k, i, y): return g(dict(op="aset", x=x, k=k, i=i, y=y, val=y if k == "ref" else vals.enc(k, y)), h=max(x, y if k == "ref" else 0))
def q(n): return range(1, n + 1)
def pre(l): return [g(e) if "g" not in e else e for e in l]

def P03(quick):
    c = small()
    al = [g(dict(op="cr", t=t, w=1), hm=3) for t in (A, B)]
    for x in q(3):
        al += [sset(x, FI, "int", 5), sset(x, FS, "str", T["red"]), sset(x, FS, "str", T["a"]), sset(x, FT, "str", T["abc"]), sset(x, FG, "long", 6)]
        al += [sset(x, FR, "ref", y) for y in range(0, 4)]
        al += [g(dict(op="clone", x=x), h=x, hm=3), g(dict(op="clone2", x=x, t=B, w=1), h=x, hm=3), g(dict(op="clone2", x=x, t=A, w=1), h=x, hm=3)]
    ob = [g(dict(op="dump"))] + [g(dict(op="get", x=x, f=f, k=k), h=x) for x in q(3) for f, k in ((FI, "int"), (FS, "str"), (FT, "str"), (FG, "long"), (FI, "str"), (FR, "ref"))]
    ob += [g(dict(op="unt", x=x, f=f), h=x) for x in q(3) for f in (FS, FR, FG)]
    yield "features", Space(c, [], al, ob, 4 if quick else 6, inv="CasOK(XC, s)"), 2500 if quick else 25000

def P04(quick):
    c = small()
    al = [g(dict(op="cra", k=k, n=n, w=1), hm=4) for k, n in (("int", 2), ("ref", 2), ("str", 1), ("int", 0), ("byte", 2))]
    ob = [g(dict(op="dump"))]
    for x in q(2):
        for i in (0, 1, 2): al += [aset(x, "int", i, y) for y in (0, 7)] + [aset(x, "ref", i, y) for y in (0, 1, 2)]
        al += [aset(x, "str", 0, T["abc"]), aset(x, "str", 0, 0), aset(x, "byte", 1, -1)]
        for b, e, o in ((0, 2, 0), (1, 2, 0), (0, 1, 1), (0, 2, 1), (0, 0, 0), (2, 1, 0)):
            al.append(g(dict(op="acfrom", x=x, k="int", src=[3, 4], vals=[3, 4], b=b, e=e, o=o), h=x))
            ob.append(g(dict(op="acto", x=x, k="int", b=b, e=e, o=o, src=[9, 9, 9, 9], vals=[9, 9, 9, 9], how=0), h=x))
        ob += [g(dict(op="alen", x=x, k=k), h=x) for k in ("int", "ref", "str", "byte", "bool")] + [g(dict(op="aget", x=x, k="int", i=i), h=x) for i in (0, 1, 2, -1)]
    yield "arrays", Space(c, [], al, ob, 4 if quick else 6, inv="CasOK(XC, s)"), 2500 if quick else 25000

def P05(quick):
    c = small()
    for k, vs in (("int", (1, 2)), ("str", (T["a"], T["ab"]))) if quick else (("int", (1, 2)), ("str", (T["a"], T["ab"])), ("float", (3, 4)), ("ref", (1, 2))):
        al, ob = [], [g(dict(op="dump"))]
        ev = lambda op, x, y: g(dict(op=op, x=x, k=k, y=y, val=y if k == "ref" else vals.enc(k, y)), h=x)
        for x in q(2):
            for v in vs: al += [ev("laddf", x, v), dict(ev("laddl", x, v), g=g({}, h=x, hm=5)["g"]), ev("lsethead", x, v), dict(ev("lrem", x, v), g=g({}, h=x, hm=5)["g"])]
            al += [g(dict(op="lnext", x=x, k=k), h=x), g(dict(op="ltail", x=x, k=k), h=x, hm=4)]
            for y in q(3): al += [g(dict(op=o, x=x, k=k, y=y), h=max(x, y)) for o in ("lapp", "lpre", "lsettail")]
        ob += [g(dict(op=o, x=x, k=k), h=x) for x in q(4) for o in ("ldump", "llen", "lemp", "lhead")]
        yield "lists-" + k, Space(c, [dict(op="crl", k=k), dict(op="crl", k=k)], al, ob, 4 if quick or k != "int" else 5, inv="CasOK(XC, s)"), 1500 if quick else 8000

def pool(vs, c):
    """structures of A and B with the values vs of their integer"""
    l = [prio(c)]
    for k, (t, v) in enumerate(vs, 1):
        l.append(dict(op="cr", t=t, w=1))
        if v: l.append(dict(op="set", x=k, f=FI, k="int", y=v, val=v))
    return l
def adds(n, w=(1,), rem=True):
    return [g(dict(op=o, w=v, x=x), h=x, v=v) for x in q(n) for v in w for o in ("add", "rem")[:2 if rem else 1]]
def its(c, n, w=(1,)):
    """every index, whole and narrowed"""
    ob = []
    for v in w:
        for i in q(len(c.ix)):
            for t in [0] + c.subtypes(c.ix[i - 1][0])[:6 if c.ix[i - 1][0] > 36 else 1]:
                ob += [g(dict(op="it", k="plain", w=v, n=i, t=t), v=v), g(dict(op="size", w=v, n=i, t=t), v=v)]
            ob += [g(dict(op="find", w=v, n=i, t=0, x=x), v=v) for x in q(n) if c.ix[i - 1][0] in (1, A)]
    return ob
def P06(quick):
    c = small([(A, "sorted", [(FI, 0)]), (A, "set", [(FI, 0)]), (B, "bag", [(FI, 0)]), (A, "bag", [(FI, 0)])])
    yield "members", Space(c, pool([(A, 0), (B, 0), (A, 1), (B, 1)], c), adds(4), its(c, 4), 4 if quick else 6, inv="IndexOK(XC, s) /\\ CmpOK(XC, s)"), 2000 if quick else 8000
    yield "views", Space(c, pool([(A, 0), (B, 0), (A, 0)], c) + [dict(op="cv", y=T["viewA"], val=vals.hexs(T["viewA"]), w=1)],
                         adds(3, (1, 2)), its(c, 3, (1, 2)), 3 if quick else 5, inv="IndexOK(XC, s)"), 1000 if quick else 6000
def P07(quick):
    for k, (ix, pr) in enumerate([([(A, "sorted", [(FI, 0), (0, 0)]), (A, "sorted", [(0, 0), (FI, 1)])], [[B, A]]),
                                  ([(A, "sorted", [(FI, 1), (FS, 0)]), (A, "set", [(FS, 0), (FI, 0)])], [[A, B], [36, 35]])]):
        c = small(ix, pr)
        l = pool([(A, 0), (B, 0), (A, 1), (B, 1), (A, -1)], c)
        for x, v in ((1, "green"), (3, "red"), (5, "red")): l.append(dict(op="set", x=x, f=FS, k="str", y=T[v], val=vals.hexs(T[v])))
        yield "order-%d" % k, Space(c, l, adds(5, rem=False), its(c, 5), 4 if quick else 6, inv="IndexOK(XC, s) /\\ CmpOK(XC, s)"), 1500 if quick else 6000
def P08(quick):
    c = small([(A, "sorted", [(FI, 0)]), (A, "set", [(FI, 0)]), (A, "bag", [(FI, 0)])])
    ks = [("plain", n) for n in (2, 3, 4, 1)] + [("tset", 2), ("filter", 2), ("anix", 1)]
    for k, n in ks:
        for m in ((0, 1, 3) if quick else (0, 1, 2, 3, 4)):
            if n == 1: l = [prio(c)] + [dict(op="can", w=1, t=X, b=b, e=b + 2) for b in (0, 0, 3, 1, 2)]
            else: l = pool([(A, 0), (B, 0), (A, 2), (B, 1), (B, 0)], c)
            l += [dict(op="add", w=1, x=x) for x in q(m)]
            e = dict(op="it", k=k, w=1, n=n, t=0)
            if n == 1: e["t"] = 35
            if k == "tset": e["ts"] = [A, B]
            if k == "filter": e["flt"] = {"o": "int", "p": [FI], "c": "eq", "y": 2, "val": 2}
            al = [g(e, im=2), g(dict(op="icopy", i=1), i=1, im=2)]
            ob = []
            for i in q(2):
                al += [g(dict(op=o, i=i), i=i, q=["cur"]) for o in ("inext", "iprev")] + [g(dict(op=o, i=i), i=i) for o in ("ifirst", "ilast")]
                if n in (1, 2): al += [g(dict(op="imoveto", i=i, x=x), i=i) for x in q(5)]
                ob += [g(dict(op="iget", i=i), i=i)] + [g(dict(op=o, i=i), i=i, q=["cur"]) for o in ("ipeekn", "ipeekp")] + [g(dict(op="irev", i=i), i=i)]
            yield "%s-%d-%d" % (k, n, m), Space(c, l, al, ob, 12), 400 if quick else 4000
def P09(quick):
    c = small()
    spans = [(X, 0, 3), (X, 0, 1), (Y, 1, 3), (X, 1, 2), (Y, 0, 3), (X, 2, 2), (35, 0, 3), (X, 2, 4)]
    n = 6 if quick else 8
    l = [prio(c)] + [dict(op="can", w=1, t=t, b=b, e=e) for t, b, e in spans[:n]]
    al = [g(dict(op="add", w=1, x=x), q=["out"]) for x in q(n)]
    ob = []
    for t in (0, X, Y): ob.append(g(dict(op="it", k="una", w=1, n=1, t=t)))
    for x in q(n):
        for t in (35, Y): ob += [g(dict(op="it", k=k, w=1, n=1, t=t, x=x, **({"viaAnn": 1} if t == Y else {}))) for k in ("sub", "subu")]
        ob.append(g(dict(op="fcov", x=x, t=X)))
    yield "spans", Space(c, l, al, ob, 3 if quick else 5, inv="IndexOK(XC, s) /\\ CmpOK(XC, s)"), 1000 if quick else 7000
def leaf(p, c, y): return {"o": "int", "p": p, "c": c, "y": y, "val": y}
def P10(quick):
    c = small([(A, "sorted", [(FT, 0)] and [(FS, 0)]), (A, "bag", [(FS, 0)])])
    l = pool([(A, 0), (B, 0), (A, 1), (B, -5)], c) + [dict(op="add", w=1, x=x) for x in q(4)]
    st = lambda p, s: {"o": "str", "p": p, "y": T[s], "val": vals.hexs(T[s])}
    lv = [leaf([FI], o, y) for o in ("eq", "gt", "lt") for y in (0, 1)] + [st([FS], "red"), st([FS], ""), leaf([FR, FI], "gt", 0), st([FR, FS], "red"),
          {"o": "type", "t": B, "sub": 0}, {"o": "type", "t": A, "sub": 1}, {"o": "type", "t": A, "sub": 0}, leaf([FR, FR, FI], "eq", 0), {"o": "match", "p": [FR], "a": leaf([FI], "lt", 1)}]
    fl = lv + [{"o": "not", "a": x} for x in lv]
    rng = random.Random(7)
    for _ in range(30 if quick else 150): fl.append({"o": rng.choice(["and", "or"]), "a": rng.choice(fl), "b": rng.choice(fl)})
    al = [sset(x, FR, "ref", y) for x in q(4) for y in (1, 4)] + [dict(sset(x, FI, "int", y)) for x in (1, 2) for y in (0, 1, 2147483647, -2147483648)]
    al += [g(dict(op="rem", w=1, x=2), q=["in"]), g(dict(op="rem", w=1, x=4), q=["in"])]
    ob = [g(dict(op="it", k="filter", w=1, n=n, t=0, flt=f)) for f in fl for n in (2,)]
    yield "filters", Space(c, l, al, ob, 2 if quick else 4), 400 if quick else 4000

TX = ["abc", "e\U00010348\U0001F600f"]
def data(ws, arr, sds=True):
    """setting the data of a view"""
    l = []
    for w in ws:
        l += [g(dict(op="dtext", w=w, y=T[t], val=vals.hexs(T[t]), m=m), v=w) for t, m in ((TX[0], 0), (TX[1], 1), ("", 2))]
        if sds: l += [g(dict(op="sds", w=w, y=T["abc"], val=vals.hexs(T["abc"]), m=T["text"], mime=vals.hexs(T["text"])), v=w),
                      g(dict(op="sdu", w=w, y=T["m2:x"], val=vals.hexs(T["m2:x"]), m=T["text/plain"], mime=vals.hexs(T["text/plain"])), v=w)]
        if arr: l.append(g(dict(op="sda", w=w, x=arr, m=T[""], mime=vals.hexs(T[""])), v=w, h=arr))
    return l
def cv(s, vm): return g(dict(op="cv", y=T[s], val=vals.hexs(T[s]), w=1), vm=vm)
def P11(quick):
    c = small()
    al = [cv(s, 4) for s in ("viewA", "viewB", "_InitialView")] + data((1, 2), 1)
    for x in (2, 3):
        al += [g(dict(op="sfs", x=x, m=0, y=T["abc"], val=vals.hexs(T["abc"])), h=x, q=["sofa"]), g(dict(op="sfs", x=x, m=2, y=T["m2:x"], val=vals.hexs(T["m2:x"])), h=x, q=["sofa"]),
               g(dict(op="sfs", x=x, m=1, y=1, val="n"), h=x, q=["sofa"])]
    al += [g(dict(op="gsofa", w=w), v=w) for w in q(2)]
    ob = [g(dict(op="gv", y=T[s], val=vals.hexs(T[s]), w=1)) for s in ("viewA", "viewB", "_InitialView", "text")]
    ob += [g(dict(op=o, w=w), v=w) for o in ("gtext", "guri", "garr", "vn", "gsofa") for w in q(3)] + [g(dict(op="sofas", w=1))]
    ob += [g(dict(op=o, x=x), h=x, q=["sofa"]) for x in range(2, 5) for o in ("sofainfo", "gvs")]
    # handle 1 is an array, the others are subjects
    yield "subjects", Space(c, [prio(c), dict(op="cra", k="int", n=2, w=1)], al, ob, 3 if quick else 5, inv="ViewsOK(XC, s)"), 2500 if quick else 30000
def P12(quick):
    c = small()
    ws = (1, 2)
    # the annotations are handles 2 and 3
    al = data(ws, 0, False) + [g(dict(op="doc", w=w), v=w, hm=7) for w in ws]
    l = [prio(c), dict(op="cv", y=T["viewA"], val=vals.hexs(T["viewA"]), w=1), dict(op="can", w=1, t=X, b=0, e=2), dict(op="can", w=2, t=Y, b=1, e=3)]
    al += [g(dict(op="add", w=w, x=x), q=["out"]) for w, x in ((1, 2), (2, 3))]
    al += [g(dict(op="can", w=w, t=X, b=b, e=e), hm=6, v=w) for w in ws for b, e in ((0, 3), (1, 1))]
    al += [g(dict(op="setlang", x=x, y=T[s], val=vals.hexs(T[s])), h=x) for x in (4, 5) for s in ("en", "")]
    ob = [g(dict(op=o, w=w), v=w) for o in ("gtext", "doc", "gsofa") for w in ws]
    ob += [g(dict(op=o, x=x), h=x) for x in (2, 3, 4, 5) for o in ("pos", "aview", "lang")] + [g(dict(op="cov", x=x), h=x) for x in (2, 3)]
    ob += [g(dict(op="it", k="anix", w=w, n=1, t=35)) for w in ws]
    # (an annotation made before its view has a subject belongs to none)
    yield "text", Space(c, l, al, ob, 3 if quick else 5, inv="ViewsOK(XC, s)"), 2500 if quick else 30000
def P13(quick):
    c = small([(A, "sorted", [(FI, 0)]), (A, "set", [(FI, 0)])])
    al = [g(dict(op="reset", w=w), v=w) for w in (1, 2)] + [cv(s, 3) for s in ("viewA", "viewB")]
    al += [g(dict(op="cr", t=B, w=w), hm=4, v=w) for w in (1, 2)] + [g(dict(op="can", w=w, t=X, b=0, e=1), hm=4, v=w) for w in (1, 2)]
    al += [g(dict(op="dtext", w=w, y=T["abc"], val=vals.hexs(T["abc"]), m=0), v=w) for w in (1, 2)] + [g(dict(op="doc", w=1), hm=4)]
    al += [g(dict(op="add", w=w, x=x), h=x, v=w, q=["out"]) for w in (1, 2) for x in (1, 2)]
    ob = [g(dict(op="dump")), g(dict(op="sofas", w=1))] + [g(dict(op="gv", y=T[s], val=vals.hexs(T[s]), w=1)) for s in ("viewA", "viewB")]
    ob += [g(dict(op=o, w=w), v=w) for o in ("gtext", "vn") for w in (1, 2)] + its(c, 0, (1, 2)) + [g(dict(op="cr", t=A, w=1)), g(dict(op="dump"))]
    yield "reset", Space(c, [], al, ob, 4 if quick else 6, inv="ViewsOK(XC, s) /\\ IndexOK(XC, s)"), 2000 if quick else 30000

def P14(quick, fmt="xmi", fmts=None):
    ix = [(A, "sorted", [(FI, 0)]), (A, "set", [(FI, 0)])]
    rts = [dict(op="rt", fmt=f, swap=1, dirty=d) for f, d in (fmts or [(fmt, 0), (fmt, 1)])]
    for shared in (0, 1):
        c = small(ix)
        c.mr = [shared] * len(c.feats)
        l = [prio(c), dict(op="cr", t=A, w=1), dict(op="cr", t=B, w=1), dict(op="cra", k="ref", n=2, w=1), dict(op="crl", k="int"),
             dict(op="laddf", x=4, k="int", y=7, val=7), dict(op="laddf", x=4, k="int", y=5, val=5), dict(op="cv", y=T["viewA"], val=vals.hexs(T["viewA"]), w=1)]
        al = [sset(x, FR, "ref", y) for x in (1, 2) for y in (1, 2)] + [sset(x, FA, "ref", 3) for x in (1, 2)] + [sset(x, FL, "ref", 4) for x in (1, 2)]
        al += [aset(3, "ref", i, y) for i in (0, 1) for y in (1, 2, 3)] + [g(dict(op="add", w=w, x=x), q=["out"]) for w in (1, 2) for x in (1, 2)]
        al += [sset(1, FS, "str", T["red"]), sset(2, FT, "str", T["<&>\"'"])]
        al += [g(dict(op="dtext", w=2, y=T[TX[1]], val=vals.hexs(T[TX[1]]), m=0)), g(dict(op="can", w=2, t=X, b=0, e=2), hm=6), g(dict(op="add", w=2, x=6), h=6, q=["out"])]
        if not quick: al += [g(dict(op="add", w=1, x=3), q=["out"]), g(dict(op="sda", w=1, x=3, m=T["text"], mime=vals.hexs(T["text"])))]
        yield "graphs-%d" % shared, Space(c, l, al, [g(e) for e in rts], 3 if quick else 4, each=True), 800 if quick else 8000
def P15(quick):
    # a component that knows everything, not B, not X and Y, nothing but A without its features; some add a structure
    for name, sp, n in P14(quick):
        sp.obs = [g(dict(op="rt", fmt="oots", swap=1, dirty=0, redspec=[list(drop), list(fdrop)], nt=nt)) for drop, fdrop, nt in
                  (((), (), 0), ((B,), (FT, FG), A), ((X, Y), (), 1), ((B, X, Y), (FR, FS, FA, FL), 0), ((A, B), (), 0))]
        yield name, sp, 300 if quick else 3000
def P16(quick): return P14(quick, "xcas")
def P17(quick): return P14(quick, fmts=[("bin", 0), ("blob", 0)])

def P24(quick):
    c = small()
    def space(name, l, w, reads, step, extra=()):
        al = [g(dict(op="sget", w=w, x=0), q=["nosm"])]
        ob = [g(dict(op="slive"))]
        for i in q(2):
            k = dict(q=["sm"])
            al += [g(dict(op="sopen", i=i, n=0), **k), g(dict(op="sclose", i=i), **k), g(dict(op="sdel", i=i), **k)]
            al += [g(dict(op="sread", i=i, es=es, n=n), **k) for es, n in reads]
            al += [g(dict(op="sseek", i=i, off=o * step, org=r), **k) for o, r in ((0, 0), (1, 0), (-1, 1), (1, 1), (0, 2), (1, 2), (-1, 2), (99, 0))]
            ob += [g(dict(op="ssize", i=i), **k), g(dict(op="sptr", i=i), **k)]
        return name, Space(c, [prio(c)] + l, al + list(extra), ob, 20, inv="StreamsOK(XC, s)"), 1500 if quick else 15000
    put = lambda k, n, vs: [dict(op="cra", k=k, n=n, w=1)] + [dict(op="aset", x=1, k=k, i=i, y=y, val=vals.enc(k, y)) for i, y in enumerate(vs)]
    sda = dict(op="sda", w=1, x=1, m=T["text"], mime=vals.hexs(T["text"]))
    tx = lambda s: dict(op="dtext", w=1, y=T[s], val=vals.hexs(T[s]), m=0)
    yield space("bytes", put("byte", 3, (65, -1, 7)) + [sda], 1, ((1, 1), (1, 2), (1, 99)), 1, [aset(1, "byte", 1, 9)])
    yield space("ints", put("int", 2, (5, -1)) + [sda], 1, ((4, 1), (4, 9), (1, 1)), 4, [aset(1, "int", 0, 2147483647)])
    yield space("longs", put("long", 2, (6, -9)) + [sda], 1, ((8, 1), (8, 9)), 8, [aset(1, "long", 0, 1)])
    yield space("text", [tx(TX[0])], 1, ((1, 1), (1, 99), (2, 1)), 1)
    yield space("wide", [tx(TX[1])], 1, ((1, 4), (1, 99)), 5)
    yield space("remote", [dict(op="sdu", w=1, y=T["m2:x"], val=vals.hexs(T["m2:x"]), m=T["text"], mime=vals.hexs(T["text"]))], 1, ((2, 1), (1, 2), (4, 1)), 4)
