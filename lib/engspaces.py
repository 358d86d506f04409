"""The spaces of analysis engines and type systems that are explored exhaustively, and the configurations that are enumerated."""
import itertools, random
import vals, eng, par, ts
from mc import Space

def caps(ls=(1,), o=(1,), sofas=False):
    return {"ls": list(ls), "i": [], "o": list(o), "si": [1] if sofas else [], "so": [], "all": False, "raw": [eng.LANG[l - 1] if l else "english" for l in ls]}
def tree(t, nty=1, leaf=None, cls=eng.ECfg):
    """the components of a nested list: an aggregate is the list of its delegates, a primitive a dict of what is special about it"""
    c = cls([], nty)
    def node(par, t):
        k = len(c.n) + 1
        q = {"p": 0 if isinstance(t, list) else 1, "par": par, "kids": [], "flow": [], "ft": 1, "caps": [caps()], "maps": [], "dll": 0, "inst": 0}
        c.n.append(q)
        if isinstance(t, dict): q.update(t)
        else:
            for x in t: q["kids"].append(node(k, x))
            q["flow"] = list(q["kids"])
        return k
    node(0, t)
    c.langs = [1]
    return c
def g(e, engs=(1,), c=0, cm=99, q=()): return dict(e, g={"eng": list(engs), "c": c, "cm": cm, "q": list(q)})
def f(a, m, r, emit=0, acts=()): return {"a": a, "m": m, "r": r, "acts": list(acts), "emit": emit}
def prims(c): return [k for k, q in enumerate(c.n, 1) if q["p"]]
RS = (95001, -96001)
def faults(c, ms):
    """nothing, or one annotator failing in one way"""
    yield []
    for a in prims(c):
        for m in ms:
            for r in RS: yield [f(a, m, r)]
def pairs(c, m1, m2, rs=RS):
    for a, b in itertools.product(prims(c), repeat=2):
        for r in rs:
            if (a, m1) != (b, m2): yield [f(a, m1, r), f(b, m2, -96002 if r > 0 else 95002)]
P = {}
OBS = [g(dict(op="isinit"), (1, 2)), g(dict(op="process", c=1, n=1, all=1, rs=[], scr=[]), c=1), g(dict(op="batch", scr=[])),
       g(dict(op="delete", scr=[]), (1, 2)), g(dict(op="create", scr=[]), (0, 1, 2)), g(dict(op="isinit"), (1, 2))]
START = [dict(op="create", scr=[]), dict(op="newcas"), dict(op="text", c=1)]
NEWCAS = [g(dict(op="newcas"), cm=1), g(dict(op="text", c=1), c=1)]

def P18(quick):
    for name, t in (("one", P), ("two", [P, P]), ("nested", [P, [P, P]])):
        c = tree(t)
        al = NEWCAS + [g(dict(op="isinit"), (1, 2)), g(dict(op="init", scr=[]), (1, 2))]
        for s in list(faults(c, (1, 2))) + (list(pairs(c, 1, 3)) if not quick or name != "nested" else []): al.append(g(dict(op="create", scr=s), (0, 2)))
        for op, m in (("delete", 3), ("destroy", 3), ("reconf", 4), ("batch", 6), ("coll", 7)):
            for s in faults(c, (m,)): al.append(g(dict(op=op, scr=s), (1, 2)))
        for s in faults(c, (5,)): al.append(g(dict(op="process", c=1, n=1, all=1, rs=[], scr=s), (1, 2), c=1))
        yield name, Space(c, [], al, OBS, 5, mod="EngMC", exe="engdrv", templ="templ_eng.tla", tail=1), 900 if quick else 6000

def P19(quick):
    shapes = [("flat", [P, P, P], None), ("left", [[P, P], P], None), ("right", [P, [P, P]], None), ("deep", [[[P]], P], None), ("both", [[P], [P]], None),
              ("twice", [P, P], [0, 1, 0]), ("back", [P, P, [P]], [2, 1, 0]), ("less", [P, P, P], [2, 0])]
    for name, t, fl in shapes:
        c = tree(t)
        if fl: c.n[0]["flow"] = [c.n[0]["kids"][i] for i in fl]
        al = []
        for op, m in (("process", 5), ("reconf", 4), ("batch", 6), ("coll", 7), ("destroy", 3)):
            e = dict(op=op, c=1, n=1, all=1, rs=[]) if op == "process" else dict(op=op)
            for s in list(faults(c, (m,))) + list(pairs(c, m, m)):
                if len(s) < 2 or s[0]["a"] < s[1]["a"]: al.append(g(dict(e, scr=s), (1, 2)))
        yield name, Space(c, START, al, OBS, 4, mod="EngMC", exe="engdrv", templ="templ_eng.tla", tail=1), 500 if quick else 3000

def P21(quick):
    """pools of two CASes"""
    for name, t, ks in (("root", dict(inst=2), (1,)), ("delegates", [dict(inst=2), dict(inst=1)], (2, 3))):
        c = tree(t)
        paths = {k: [c.key(k)] if c.n[k - 1]["par"] else [] for k in ks}
        al, ob = [], []
        for k in ks:
            e = dict(k=k, path=paths[k])
            al.append(g(dict(e, op="pget")))
            for x in (1, 2)[:c.n[k - 1]["inst"]]:
                for n in (1, 2): al.append(g(dict(e, op="prel", x=x, n=n), q=["seen"]))
                al += [g(dict(e, op="pview", x=x, n=2), q=["used"]), g(dict(e, op="ptext", x=x, len=3), q=["used"])]
                ob += [g(dict(e, op=o, x=x), q=["used"]) for o in ("plen", "pviews")]
            al.append(g(dict(e, op="prelx", c=1)))
        if name == "root":
            for n in (0, 1, 3): al.append(g(dict(op="pn", c=1, n=1, all=1, rs=[], it="i0", scr=[f(1, 5, 0, n)])))
            al += [g(dict(op="inx", it="i0"), q=["left"]), g(dict(op="ihn", it="i0"))]
            pre = START + [dict(op="pn", c=1, n=1, all=1, rs=[], it="i0", scr=[])]
        else:
            for k, o in ((2, 3), (3, 2)): al.append(g(dict(op="prelo", k=k, o=o, x=1, path=paths[k]), q=["seeno"]))
            pre = START
        # what is left of each pool
        ob += [g(dict(k=k, path=paths[k], op="pget")) for k in ks for _ in range(3)]
        yield name, Space(c, pre, al, ob, 5 if quick else 7, mod="EngMC", exe="engdrv", templ="templ_eng.tla", tinv="PoolOK(Cfgs[Hist[h].c], s)", inv="PoolOK(XC, s)"), 1500 if quick else 15000

def P01(quick):
    c = ts.TCfg()
    A, B, D, H = 37, 38, 39, 1
    N1, N2 = 13, 14
    def d(e, t=()): return dict(e, g={"t": list(t), "open": 1})
    def o(e, t=()): return dict(e, g={"t": list(t), "open": 0})
    al = [d(dict(op="tcreate", par=p, nm=n, cr=1), [p]) for p, n in ((1, A), (1, B), (A, B), (B, A), (A, D), (B, D), (11, B), (4, D), (9, A), (D, A), (1, 1))]
    al += [d(dict(op="scr", nm=n, al=l, vals=[vals.hexs(a) for a in l], cr=2)) for n, l in ((D, ts.STRTOK[1:3]), (A, []))]
    al += [d(dict(op="fcreate", i=i, n=n, r=r, m=m, cr=1), [i, r]) for i, n, r, m in
           ((A, N1, 2, 0), (B, N1, 2, 1), (B, N1, 3, 0), (D, N1, 2, 0), (A, N2, B, 1), (B, H, 1, 0), (11, N1, 2, 0), (10, N2, 2, 0), (1, N1, 2, 0), (2, N1, 2, 0), (D, N2, 1, 0))]
    al += [d(dict(op="prio", a=a, b=b), [a, b]) for a, b in ((A, B), (B, A), (B, D), (D, A), (A, A))]
    al += [d(dict(op="commit"))]
    us = (A, B, D)
    q = lambda k, need=(), **e: o(dict(op="q", k=k, u=0, **e), need)
    q1 = [q("all"), q("feats")] + [q("byname", t=t) for t in us]
    for t in (1, 4, 10, 11) + us: q1 += [q(k, [t], t=t) for k in ("par", "dir", "subs", "row")]
    for t in us: q1 += [q(k, [t], t=t) for k in ("prim", "sst", "final")]
    for t in us + (11, 10): q1 += [q("finfo", [t], t=t, n=n) for n in (N1, N2, H)]
    q1 += [o(dict(op="q", k="csup", t=a, u=b, u2=b), [a, b]) for a, b in itertools.combinations(us, 2)]
    q2 = [d(dict(op="commit"))] + [q(k, [t], t=t) for t in us + (11, 12) for k in ("approp", "isapp", "fnum", "offs")] + [q("order")]
    pre = [dict(op="reset")]
    yield "definitions", Space(c, pre, al, q1 + q2, 4 if quick else 5, mod="TypeMC", exe="tsdrv", templ="templ_ts.tla", inv="Consistent(XC, s)", tinv="Consistent(Cfgs[Hist[h].c], s)"), 1500 if quick else 15000

# ------------------------------------------------------------------ enumerated configurations: (name, [(configuration, operations)], how many of them at most, ...)
def langs(): return [(1, "x-unspecified"), (2, "en"), (3, "en-US"), (4, "en_gb"), (5, "de"), (0, "english")]
def P20(quick):
    """two delegates, each with a capability; documents of every language, several requests"""
    opts = [caps(l, o) for l in ([], [1], [2], [3], [1, 2], [2, 3], [5]) for o in ([], [1], [2], [1, 2])]
    two = [[a, b] for a, b in itertools.product(opts[::3], repeat=2)]
    def ops():
        l = list(START)
        for n, s in langs():
            l.append(dict(op="setlang", c=1, n=1, lg=n, val=s))
            l += [dict(op="process", c=1, n=1, all=0, rs=rs, scr=[]) for rs in ([1], [2], [1, 2])] + [dict(op="process", c=1, n=1, all=1, rs=[], scr=[])]
            l += [dict(op="process", c=1, n=1, all=0, rs=[1, 2], scr=[f(2, 5, 95001)])]
        return l
    def cfg(ca, cb, nested):
        c = tree([P, [P]] if nested else [P, P])
        c.langs = [1]
        c.n[0].update(ft=2, caps=[caps([1], [1, 2])])
        c.n[1]["caps"], c.n[2]["caps"] = ca, cb
        if nested: c.n[2]["ft"] = 2; c.n[3]["caps"] = cb
        return c
    def all_():
        for a, b in itertools.product(opts, repeat=2):
            for nested in (0, 1): yield lambda a=a, b=b, nested=nested: (cfg([a], [b], nested), ops())
        for a in two: yield lambda a=a: (cfg(a, [opts[5]], 0), ops())
    yield "capabilities", list(all_()), 500 if quick else 1700, {}

def P23(quick):
    """two levels of delegates with every small table of Sofa mappings"""
    tabs = [[], [(1, 2)], [(2, 3)], [(1, 3), (2, 1)], [(1, 2), (2, 2)], [(3, 2)], [(1, 1)]]
    acts = [{"k": "gv", "n": n, "val": ""} for n in (1, 2, 3, 4)]
    def ops(c):
        l = list(START)
        pr = prims(c)
        for made in ((), (2,), (3,)):
            l += [dict(op="mkview", c=1, n=n) for n in made]
            l.append(dict(op="views", c=1))
            for v in {1} | set(made): l.append(dict(op="process", c=1, n=v, all=1, rs=[], scr=[f(a, 5, 0, 0, acts) for a in pr]))
        l += [dict(op="rescas", c=1), dict(op="process", c=1, n=1, all=1, rs=[], scr=[]), dict(op="text", c=1)]
        l += [dict(op="process", c=1, n=1, all=1, rs=[], scr=[f(a, 5, 0, 0, [{"k": "cv", "n": n, "val": ""}]) for a, n in zip(pr, (2, 3, 4))]), dict(op="views", c=1)]
        return l
    def cfg(ma, mb, mc, aw):
        c = tree([P, [P]])
        for k, m in ((2, ma), (3, mb), (4, mc)): c.n[k - 1]["maps"] = list(m)
        for k, x in zip((2, 3, 4), aw): c.n[k - 1]["caps"] = [caps(sofas=x)]
        c.n[1]["nodef"] = True
        return c, ops(c)
    def all_():
        for ma, mb, mc in itertools.product(tabs, repeat=3):
            for aw in ((0, 0, 0), (1, 1, 1), (0, 1, 0), (0, 0, 1)): yield lambda ma=ma, mb=mb, mc=mc, aw=aw: cfg(ma, mb, mc, aw)
    yield "mappings", list(all_()), 700 if quick else 1372, {}

def P22(quick):
    """a parameter declared, or not, and set, or not, in every way at two levels; every lookup, and every lookup after every setting"""
    G = (2, 3, 7)                                   # en, en-us, and another one
    plain = [(None, None)] + [(r, v) for r in ((), (2,)) for v in (None, 5)]
    ways = list(itertools.product(["no", "com", (2,), (3,), (2, 3)], [(), (2,), (3,), (2, 3)], [0, 2, 7], [0, 1, 2], [0, 1]))
    def cfg(a, b, seed):
        rng = random.Random(seed)
        c = tree([P, P], cls=par.PCfg)
        for q, w in zip(c.n, (a, b, b)):
            for k in q["caps"]: k["o"] = []
            decl, sets, dg, strat, rst = w
            p = {"nm": 1, "ty": 2, "mu": 0, "man": 0, "rst": [2] if rst and q["kids"] else []}
            q.update(gs=list(G), ps=[], ss=[], gx=[([x], []) for x in G], sx=[], strat=strat, dg=dg)
            q["ps"].append({"nm": 2, "ty": 2, "mu": 0, "man": 0, "rst": [], "g": 7})       # so that there are groups
            q["gx"][2][1].append(q["ps"][0])
            if decl == "com": q["ps"].insert(0, dict(p, g=-1))
            elif decl != "no":
                for x in decl:
                    q["ps"].append(dict(p, g=x)); q["gx"][G.index(x)][1].append(q["ps"][-1])
            for x in sets:
                if decl == "com" or decl != "no" and x in decl:
                    s = {"nm": 1, "ty": 2, "mu": 0, "v": [10 * (1 + c.n.index(q)) + x], "g": x}
                    q["ss"].append(s); q["sx"].append(([x], [s]))
            q["params"] = c.paramsxml(rng, q)
        def acc(op, k, gr, **e):
            e = dict(e, op=op, k=k, nm=1, g=gr, path=[c.key(k)] if k > 1 else [], name=par.NAME[0])
            if gr != -3: e["group"] = par.GROUP[gr - 1]
            return e
        get = [acc("getp", k, gr, ty=2, mu=0, multi=0, kind="int") for k in (1, 2, 3) for gr in (-3,) + G]
        get += [acc(o, k, gr) for o in ("isdef", "gnames") for k in (1, 2) for gr in (-3, 2)]
        l = [dict(op="pcreate")] + get
        n = 100
        for k in (2, 1, 3):
            for gr in (-3, 2, 3):
                n += 1
                l += [acc("setp", k, gr, ty=2, mu=0, multi=0, kind="int", v=[n], vals=[n])] + get
        return c, l
    al = [lambda a=a, b=b, i=i: cfg(a, b, i) for i, (a, b) in enumerate(itertools.product(ways, repeat=2))]
    yield "parameters", al, 250 if quick else 2500, dict(templ="templ_par.tla", inv="ParamsOK(Cfgs[Hist[h].c], s)")

def P02(quick):
    """two descriptions of two types each, merged by a third"""
    A, B, N1, N2 = 37, 38, 13, 14
    al = [ts.TRIMMED[0:2], ts.TRIMMED[1:3]]
    def decls(nm, o):
        l = [None, (1, [], []), (35, [], []), (o, [], []), (4, al[0], []), (4, al[1], []), (1, [], [(N1, 2)]), (1, [], [(N1, 4)]), (1, [], [(N1, o)]), (1, [], [(N1, 2), (N2, nm)]),
             (o, [], [(N1, 2)]), (35, [], [(N1, 2)]), (35, [], [(10, 2)]), (o, [], [(N1, o)])]
        return [None if x is None else {"nm": nm, "sup": x[0], "al": x[1], "fs": [{"n": n, "r": r, "x": 0} for n, r in x[2]], "empty": 0} for x in l]
    da, db = decls(A, B), decls(B, A)
    def cfg(i, j, k, l, ae):
        D = lambda ts_, im: {"im": im, "ts": [t for t in ts_ if t], "wrap": 1, "last": 0, "empty": 1, "dir": 0, "abs": 0}
        c = ts.TCfg([D([da[i], db[j]], []), D([db[l], da[k]], []), D([], [1, 2])], [{"d": 1, "kids": [2], "imp": 0, "par": 0}, {"d": 2, "kids": [], "imp": 0, "par": 0}])
        us = [t for t in (A, B) if any(d["nm"] == t for x in c.descs for d in x["ts"])]
        q = [dict(op="q", k="all", u=0), dict(op="q", k="feats", u=0)] + [dict(op="q", k=k_, u=0, t=t) for t in us for k_ in ("par", "subs", "approp", "fnum", "final")]
        q += [dict(op="q", k="finfo", u=0, t=t, n=n) for t in us for n in (N1, N2, 10)]
        return c, (dict(op="build", how="ae", root=1, rw=0, file="a1.xml") if ae else dict(op="build", how="file", root=3, file=c.place(3))), q
    sp = list(itertools.product(range(len(da)), range(len(db)), range(len(da)), range(len(db)), (0, 1)))
    same = lambda x, y: x is None or y is None or x["sup"] == y["sup"]
    kw = dict(templ="templ_ts.tla", inv="Consistent(Cfgs[Hist[h].c], s)", exe="tsdrv")
    ok = [x for x in sp if same(da[x[0]], da[x[2]]) and same(db[x[1]], db[x[3]])]
    yield "descriptions", [lambda x=x: cfg(*x) for x in ok], 1000 if quick else 8000, kw
    ok = set(ok)
    yield "contradictions", [lambda x=x: cfg(*x) for x in sp if x not in ok], 300 if quick else 3000, kw
