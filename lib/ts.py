"""Type systems: the record C of TypeSys.tla, descriptors, and histories of definitions, merges and queries."""
import os, random, hashlib, threading
from xml.sax.saxutils import escape
import vals, vbuild
from cfg import BT, BP, BF

USER = ["v.A", "v.B", "v.AB", "V.a", "w.A", "Plain", "v.sub.pack.Age", "uima.cas.Integer2", "uima.tcas.Annotation2", "z.\u00dcber", "org.x.y_z", "v.A1", "v.A2", "B", "no.Where"]
TN = BT + USER                      # tokens 1..
NB = 36
FN = ["head", "tail", "sofaNum", "sofaID", "mimeType", "sofaArray", "sofaString", "sofaURI", "sofa", "begin", "end", "language",
      "f", "ff", "F", "g", "h_2", "\u00e9t\u00e9", "Begin", "nope"]
CR = ["me", "you", "creator \u00e7"]
FINALB = set(range(2, 10)) | set(range(23, 33))
ARRB = {6, 7, 8, 9} | set(range(28, 33))
# the tail features of lists take multiple references
BFS = [{"i": d, "n": FN.index(nm) + 1, "r": r, "m": int(nm == "tail")} for d, r, nm in BF]
STRTOK = [i for i in vals.ANYSTR[1:]]
TRIMMED = [i for i in STRTOK if vals.STR[i] == vals.STR[i].strip() and vals.STR[i] != ""]

class TCfg:
    def __init__(self, descs=(), aes=(), mr=None):
        self.descs, self.aes = list(descs), list(aes)
        self.mr = mr or [0] * len(FN)
    def tla(self):
        return {"bp": BP, "bf": BFS, "mr": self.mr,
                "desc": [{"im": d["im"], "ts": [{"nm": t["nm"], "sup": t["sup"], "al": t["al"], "fs": [{"n": f["n"], "r": f["r"]} for f in t["fs"]]} for t in d["ts"]]} for d in self.descs],
                "ae": [{"d": a["d"], "kids": a["kids"]} for a in self.aes]}
    def driver(self, d): return {"tn": TN, "fn": FN, "cr": CR}
    def typesxml(self, d, loc):
        """d: index of a description; loc(j): the location to import description j by"""
        q = self.descs[d - 1]
        imps = ["<import location=\"%s\"/>" % loc(j) for j in q["im"]]
        if q["wrap"] and imps: imps = ["<imports>%s</imports>" % "".join(imps)]
        o = []
        for t in q["ts"]:
            x = "<typeDescription><name>%s</name><description/><supertypeName>%s</supertypeName>" % (escape(TN[t["nm"] - 1]), TN[t["sup"] - 1])
            if t["fs"] or t["empty"]:
                x += "<features>%s</features>" % "".join(
                    "<featureDescription><name>%s</name><description/><rangeTypeName>%s</rangeTypeName>%s</featureDescription>" % (
                        FN[f["n"] - 1], TN[f["r"] - 1], "<multipleReferencesAllowed>true</multipleReferencesAllowed>" if self.mr[f["n"] - 1] else
                        "<multipleReferencesAllowed>false</multipleReferencesAllowed>" if f["x"] else "") for f in t["fs"])
            if t["al"]:
                x += "<allowedValues>%s</allowedValues>" % "".join("<value><string>%s</string><description/></value>" % escape(vals.STR[a], {"\r": "&#13;"}) for a in t["al"])
            o.append(x + "</typeDescription>")
        o = ["<types>%s</types>" % "".join(o)] if o or q["empty"] else []
        return "".join(o + imps if q["last"] else imps + o)
    def place(self, j): return "%d/d%d.xml" % (self.descs[j - 1]["dir"], j) if self.descs[j - 1]["dir"] else "d%d.xml" % j
    def files(self, d, root):
        """writes every descriptor below a directory of this configuration's; returns the path of the root's"""
        h = getattr(self, "uid", None)
        if not h:
            import json
            h = self.uid = hashlib.sha1(json.dumps([self.tla(), self.descs, self.aes], sort_keys=True).encode()).hexdigest()[:16]
        b = os.path.join(d, "ts-" + h)
        if not os.path.exists(b):
            tmp = "%s.%d" % (b, threading.get_ident())
            os.makedirs(tmp, exist_ok=True)
            for j in range(1, len(self.descs) + 1):
                p = os.path.join(tmp, self.place(j))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f: f.write(self.descxml(j, b))
            for k in range(1, len(self.aes) + 1):
                with open(os.path.join(tmp, "a%d.xml" % k), "w") as f: f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + self.aexml(k, b))
            try: os.rename(tmp, b)
            except OSError: pass
        return os.path.join(b, root)
    def locate(self, frm, j, b, ab):
        """the location of description j as an import of something in directory frm"""
        p = self.place(j) if j else "missing.xml"
        if ab: return os.path.join(b, p)
        return os.path.relpath(p, frm) if frm else p
    def descxml(self, j, b):
        q = self.descs[j - 1]
        frm = os.path.dirname(self.place(j))
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<typeSystemDescription xmlns="http://uima.apache.org/resourceSpecifier"><name>D%d</name><description/><version>1</version><vendor/>' % j
                + self.typesxml(j, lambda i: self.locate(frm, i, b, q["abs"])) + "</typeSystemDescription>")
    def aexml(self, k, b):
        a = self.aes[k - 1]
        o = ['<analysisEngineDescription xmlns="http://uima.apache.org/resourceSpecifier"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>%s</primitive>' % ("false" if a["kids"] else "true")]
        if a["kids"]:
            o.append("<delegateAnalysisEngineSpecifiers>")
            for c in a["kids"]:
                o.append('<delegateAnalysisEngine key="d%d">%s</delegateAnalysisEngine>' % (c, '<import location="a%d.xml"/>' % c if self.aes[c - 1]["imp"] else self.aexml(c, b)))
            o.append("</delegateAnalysisEngineSpecifiers>")
        else: o.append("<annotatorImplementationName>%s</annotatorImplementationName>" % os.path.join(vbuild.BUILD, "opt", "traceann.so"))
        o.append("<analysisEngineMetaData><name>A%d</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>" % k)
        if a["kids"]: o.append("<flowConstraints><fixedFlow>%s</fixedFlow></flowConstraints>" % "".join("<node>d%d</node>" % c for c in a["kids"]))
        q = self.descs[a["d"] - 1]
        if q["ts"] or q["im"] or q["empty"]:
            o.append("<typeSystemDescription>%s</typeSystemDescription>" % self.typesxml(a["d"], lambda i: self.locate("", i, b, q["abs"])))
        o.append("<capabilities/><operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed>"
                 "<outputsNewCASes>false</outputsNewCASes></operationalProperties></analysisEngineMetaData></analysisEngineDescription>")
        return "".join(o)

def rndts(rng, bad=.35):
    """descriptions that mostly agree"""
    nu = rng.randint(2, 10)
    names = rng.sample(range(NB + 1, NB + len(USER)), nu)      # the last name is never described
    # the hierarchy they all describe
    sup, order = {}, list(names)
    for i, n in enumerate(order):
        r = rng.random()
        sup[n] = 4 if r < .15 else rng.choice([1, 35, 34, 36, 10, 11, 33] if r < .5 or i == 0 else [x for x in order[:i] if sup[x] != 4] or [1])
    al = {n: rng.sample(TRIMMED, rng.randint(0, 4)) for n in names if sup[n] == 4}
    plain = [n for n in names if sup[n] != 4]
    def anc(n):
        while n: yield n; n = sup[n] if n in sup else BP[n - 1]
    feats = []                                                   # (type, name, range): compatible ones
    for _ in range(rng.randint(0, 12)):
        if not plain: break
        t = rng.choice(plain + ([36, 35] if rng.random() < .2 else []))
        n = rng.randint(13, len(FN) - 1) if rng.random() < .9 else rng.randint(1, len(FN) - 1)
        r = rng.choice([2, 3, 4, 1, 35, 6, 8, 9, 11, 23, 24, 25, 26, 27, 28, 30] + names * 2)
        old = [g for g in feats + [(q["i"], q["n"], q["r"]) for q in BFS] if g[1] == n and (g[0] in anc(t) or t in anc(g[0]))]
        if old:
            r = old[0][2]
            if rng.random() < .3: continue
        feats.append((t, n, r))
    nd = rng.randint(1, 5)
    descs = []
    bad_ = rng.random() < bad
    for j in range(nd):
        l = []
        for n in rng.sample(names, rng.randint(0, nu)):
            # sometimes the same type twice in a description
            for _ in range(2 if rng.random() < .08 else 1):
                fs = [f for f in feats if f[0] == n]
                fs = rng.sample(fs, rng.randint(0, len(fs)))
                fs = [f for i, f in enumerate(fs) if not any(g[1] == f[1] for g in fs[:i])]
                l.append(tdesc(rng, n, sup[n], rng.sample(al[n], rng.randint(0, len(al[n]))) if n in al else [], fs))
        for n in (35, 36):
            fs = [f for f in feats if f[0] == n]
            if fs: l.append(tdesc(rng, n, BP[n - 1], [], [f for i, f in enumerate(fs) if not any(g[1] == f[1] for g in fs[:i])]))
        if rng.random() < .1: b = rng.choice([2, 4, 6, 8, 10, 11, 23, 33, 34, 36]); l.append(tdesc(rng, b, BP[b - 1], [], []))
        rng.shuffle(l)
        descs.append({"im": [], "ts": l, "wrap": int(rng.random() < .8), "last": int(rng.random() < .5), "empty": int(rng.random() < .5),
                      "dir": rng.choice([0, 0, 1, 2]), "abs": int(rng.random() < .4)})
    # types that some description leaves out are described somewhere, mostly
    have = {t["nm"] for d in descs for t in d["ts"]}
    if rng.random() < .9:
        for n in names:
            if n not in have: descs[rng.randrange(nd)]["ts"].insert(0, tdesc(rng, n, sup[n], al.get(n, []), []))
    for j, d in enumerate(descs):
        if rng.random() < .6: d["im"] = [rng.randint(1, nd) for _ in range(rng.randint(0, min(3, nd)))]
        if rng.random() < .4: d["im"] = list(dict.fromkeys(d["im"] + list(range(1, nd + 1))))
        rng.shuffle(d["im"])
    c = TCfg(descs, mr=[0 if i < 12 else rng.randint(0, 1) for i in range(len(FN))])
    if bad_: spoil(rng, c, names, sup)
    # components, each with a description of its own
    for k in range(rng.randint(1, 4)):
        c.aes.append({"d": rng.randint(1, nd), "kids": [], "imp": int(rng.random() < .4), "par": 0})
    for k in range(1, len(c.aes)):
        p = rng.randint(1, k)
        c.aes[p - 1]["kids"].append(k + 1)
    return c
def tdesc(rng, n, sup, al, fs):
    return {"nm": n, "sup": sup, "al": list(al), "fs": [{"n": f[1], "r": f[2], "x": int(rng.random() < .2)} for f in fs], "empty": int(rng.random() < .2)}
def spoil(rng, c, names, sup):
    """one contradiction, somewhere"""
    ds = [d for d in c.descs if d["ts"]]
    if not ds: return
    d = rng.choice(ds)
    t = rng.choice(d["ts"])
    k = rng.choice(["sup", "range", "unksup", "unkrange", "cycle", "finsup", "finfeat", "dupf", "dupa", "miss", "strsup", "anc", "topfeat"])
    un = len(BT) + len(USER)       # the name nobody describes
    user = t["nm"] > NB
    if k == "sup" and user: t["sup"] = rng.choice([x for x in [1, 35, 34, 10] + [n for n in names if n != t["nm"]] if x != t["sup"]]); t["al"] = []
    elif k == "range" and t["fs"]: t["fs"][0]["r"] = rng.choice([2, 3, 1, 6, 35])
    elif k == "unksup" and user: t["sup"], t["al"] = un, []
    elif k == "unkrange" and t["fs"]: t["fs"][0]["r"] = un
    elif k == "cycle" and user:
        t["al"] = []
        t["sup"] = rng.choice([t["nm"]] + [n for n in names])
    elif k == "finsup" and user: t["sup"], t["al"] = rng.choice(sorted(FINALB - {4})), []
    elif k == "strsup" and user:
        s = [n for n in names if sup[n] == 4]
        if s: t["sup"], t["al"] = rng.choice(s), []
    elif k == "finfeat": d["ts"].append(tdesc(rng, *rng.choice([(b, BP[b - 1]) for b in sorted(FINALB)] + [(n, 4) for n in names if sup[n] == 4] * 5), [], [(0, rng.randint(13, 18), 2)]))
    elif k == "dupf" and t["fs"]: t["fs"].append(dict(t["fs"][0]))
    elif k == "dupa" and t["al"]: t["al"].append(t["al"][0])
    elif k == "miss": d["im"].append(0)
    elif k == "anc" and user and t["sup"] != 4 and not any(f["n"] == 10 for f in t["fs"]):
        t["fs"].append({"n": 10, "r": rng.choice([2, 3]), "x": 0})

# ------------------------------------------------------------------ histories
QK = dict(all=1, par=3, dir=3, subs=3, row=3, csup=3, byname=2, feats=2, approp=4, isapp=3, fnum=1, offs=2, fby=5, ffull=3, finfo=5, fcr=2, tcr=2, strs=3,
          prim=2, sst=2, final=2, order=2, invt=1, invf=1, inveq=1)
class TG:
    """P01: definitions one by one, with queries between them"""
    def __init__(self, r, rng):
        self.r, self.rng = r, rng
        self.ty, self.en, self.ft, self.com, self.fresh = {}, {}, {}, True, True     # what the generator believes
        self.base(range(1, NB + 1))
        self.merged = False
    def base(self, l):
        self.ty = {t: BP[t - 1] for t in l}
        self.en = {}
        self.ft = {(f["i"], f["n"]): f for f in BFS if f["i"] in self.ty}
    def anc(self, t):
        while t: yield t; t = self.ty.get(t, 0)
    def op(self, **e): return self.r.op(**e)
    def query(self):
        rng = self.rng
        ks = list(QK)
        k = rng.choices(ks, [QK[x] for x in ks])[0]
        types = list(self.ty)
        t = rng.choice(types) if rng.random() < .5 else rng.choice([x for x in types if x > NB] or types)
        u = int(rng.random() < .4)
        e = dict(op="q", k=k, u=u)
        if k in ("approp", "isapp", "fnum", "offs", "order") and not self.com: return
        if k == "order" and self.com and rng.random() < .5: return
        if k in ("all", "feats", "order"): pass
        elif k == "csup": e.update(t=t, u=rng.choice(types)); e["u2"] = e.pop("u"); e["u"] = e["u2"]
        elif k in ("strs",):
            l = [x for x in types if self.ty[x] == 4]
            if not l: return
            e.update(t=rng.choice(l), k="strset" if self.merged else "strs")
        elif k in ("fby", "ffull", "finfo", "fcr"):
            if rng.random() < .7:
                (i, n) = rng.choice(list(self.ft))
                below = [x for x in types if i in self.anc(x)]
                t = rng.choice(below) if rng.random() < .8 else rng.choice(types)
            else: n = rng.randint(1, len(FN))
            if k != "fcr" and rng.random() < .1: t = rng.randint(1, len(TN))
            e.update(t=t, n=n)
            if k == "fby": e["nm"] = rng.randint(0, 1)
            if k == "ffull": e["form"] = 0 if rng.random() < .75 else rng.randint(1, 9)
            if k == "fcr":
                if self.merged: return
                l = [x for x in self.ft if x[0] > NB]
                if not l: return
                i, n = rng.choice(l)
                e.update(t=rng.choice([x for x in types if i in self.anc(x)]), n=n)
        elif k == "tcr":
            l = [x for x in types if x > NB]
            if not l or self.merged: return
            e["t"] = rng.choice(l)
        elif k == "byname":
            e["t"] = rng.randint(1, len(TN))
            if rng.random() < .15:
                e["raw"] = rng.choice(["", "v", "v.", "TOP", "uima.cas", "uima.cas.top", " v.A", "v.A ", "INVALID_TYPE", TN[e["t"] - 1] + "x", TN[e["t"] - 1][:-1] + "\u0001"])
                e["t"] = 0
        elif k == "sst" and u and rng.random() < 0: return
        elif k == "invt": e = dict(op="q", k=k, form=rng.randint(0, 9), src=rng.randint(0, 1))
        elif k == "invf": e = dict(op="q", k=k, form=rng.randint(0, 5), src=rng.randint(0, 1))
        elif k == "inveq":
            o = [x for x in types if x != t]
            e.update(t=t, u2=rng.choice(o))
        else: e["t"] = t
        o = self.op(**e)
        if o and e["k"] == "strset": o["rv"].sort()
    def step(self):
        rng = self.rng
        if self.fresh or rng.random() < .01:
            o = self.op(op="reset"); self.fresh = False
            self.base(range(1, 33)); self.com = False
            return
        if self.com:
            return self.query()
        types = list(self.ty)
        user = [t for t in types if t > NB]
        r = rng.random()
        nm = rng.randint(NB + 1, len(TN)) if rng.random() < .9 else rng.choice(types)
        cr = rng.randint(1, len(CR))
        def ok(o): return o and o["rt"] == "ok"
        if r < .22:
            par = rng.choice(types) if rng.random() < .35 else rng.choice(user + [1, 10, 11])
            if ok(self.op(op="tcreate", par=par, nm=nm, cr=cr)): self.ty[nm] = par
        elif r < .28:
            al = rng.sample(STRTOK, rng.randint(0, 5))
            if ok(self.op(op="scr", nm=nm, al=al, vals=[vals.hexs(a) for a in al], cr=cr)): self.ty[nm] = 4; self.en[nm] = al
        elif r < .52:
            i = rng.choice(types) if rng.random() < .2 else rng.choice(user or types)
            n = rng.randint(13, 17) if rng.random() < .7 else rng.randint(1, len(FN) - 1)
            f = dict(i=i, n=n, r=rng.choice(types), m=rng.randint(0, 1))
            if ok(self.op(op="fcreate", cr=cr, **f)): self.ft[(i, n)] = f
        elif r < .58:
            a, b = rng.choice(user or types) if rng.random() < .7 else rng.choice(types), rng.choice(user or types) if rng.random() < .7 else rng.choice(types)
            self.op(op="prio", a=a, b=b)
        elif r < .60 and len(self.r.ops) > 18 or len(self.r.ops) > 60:
            self.op(op="commit"); self.com = True
        else: self.query()

HOW = ["file", "file", "desc", "desc", "fdesc", "buf", "ubuf", "udesc", "bdesc"]
class BG(TG):
    """P02: whole type systems merged from descriptions"""
    rw = 0
    xml = .1
    ways = None
    def __init__(self, r, rng):
        TG.__init__(self, r, rng)
        self.merged, self.left = True, 0
        self.fresh = False
    def step(self):
        if self.left <= 0 or not self.ty: self.build()
        else:
            self.left -= 1
            self.query()
    def reach(self, ds):
        c, seen, todo = self.r.cfg, set(), list(ds)
        while todo:
            d = todo.pop()
            if d in seen: continue
            seen.add(d)
            if d: todo += c.descs[d - 1]["im"]
        return seen
    def build(self):
        rng, c = self.rng, self.r.cfg
        e = dict(op="build")
        if rng.random() < .45 or self.ways == "ae":
            e["how"], e["root"] = "ae", rng.randint(1, len(c.aes))
            e["rw"] = self.rw if rng.random() < .8 or self.rw else 2
            todo, own = [e["root"]], []
            while todo:
                k = todo.pop(); own.append(c.aes[k - 1]["d"]); todo += c.aes[k - 1]["kids"]
            D = self.reach(own)
            f = "a%d.xml" % e["root"]
        else:
            e["root"] = rng.randint(1, len(c.descs))
            q = c.descs[e["root"] - 1]
            e["how"] = rng.choice(HOW)
            if e["how"] in ("buf", "ubuf", "udesc", "bdesc", "fdesc") and q["im"] and not q["abs"]: e["how"] = rng.choice(["file", "desc"])
            D = self.reach([e["root"]])
            f = c.place(e["root"])
        e["file"] = c.files(self.r.dir, f)
        tys = {}
        strs = False
        for d in D:
            for t in (c.descs[d - 1]["ts"] if d else []):
                tys[t["nm"]] = t["sup"]
                strs |= t["sup"] == 4
        if e["how"] in ("desc", "fdesc", "udesc", "bdesc") and rng.random() < .3:
            pool = list(tys) + [35, 36, 1, 10]
            e["pr"] = [rng.sample(pool, rng.randint(0, min(4, len(pool)))) + ([rng.randint(NB + 1, len(TN))] if rng.random() < .05 else []) for _ in range(rng.randint(1, 3))]
        elif rng.random() < self.xml and not strs and e.get("rw") != 2: e["xml"], e["xf"] = 1, rng.randint(0, 2)
        o = self.op(**e)
        self.ty = {}
        if o and o["rt"] == "ok" and o["rv"] == [0]:
            self.left = rng.randint(6, 25)
            self.base(range(1, NB + 1))
            self.ty.update(tys)
            self.ft = {(q["i"], q["n"]): q for q in BFS}
            for d in D:
                for t in c.descs[d - 1]["ts"]:
                    for g in t["fs"]: self.ft[(t["nm"], g["n"])] = g
