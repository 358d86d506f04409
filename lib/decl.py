"""Declared indexes and type priorities: trees of components, what they declare themselves and what they import."""
import os, hashlib, itertools, random, threading
import vbuild

TN = ["", "uima.cas.TOP", "uima.tcas.Annotation", "t.A", "t.B", "t.C", "t.D", "t.X"]
FN = ["uima.tcas.Annotation:begin", "uima.tcas.Annotation:end", "t.A:x", "t.B:z", "t.C:x"]
BASE = ["", "begin", "end", "x", "z", "x", "w"]
DOM, PAR = [0, 2, 2, 3, 4, 5], [0, 0, 1, 2, 3, 1, 5]
LAB = ["", "AnnotationIndex", "L", "L2", "l", "annotationIndex"]
KIND = ["", "sorted", "set", "bag"]
ID = dict(twice=1, type=2, feature=3, incompatible=4, conflict=5, missing=6, byname=7)
BUILTIN = dict(l=1, k=1, ty=2, ks=[[1, 0], [2, 1], [0, 0]])
def sub(a, b):
    while b and b < 7:
        if a == b: return True
        b = PAR[b]
    return False
HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'
NS = ' xmlns="http://uima.apache.org/resourceSpecifier"'
def library(uni):
    p = os.path.join(vbuild.BUILD, "opt", "traceann.so")
    if not uni: return p
    d = os.path.join(vbuild.BUILD, "work", uni)
    os.makedirs(d, exist_ok=True)
    q = os.path.join(d, "traceann.so")
    if not os.path.lexists(q):
        t = "%s.%d.%d" % (q, os.getpid(), threading.get_ident())
        os.symlink(p, t); os.replace(t, q)
    return q
class DCfg:
    """comps: [dict(ix, im, kids)], the first is the root; files: [dict(ix, im, dir)]; own, im: the root's priorities;
    pfiles: [dict(ch, im, dir)]"""
    rw, uni = 0, ""        # written and read back how often; what names of files begin with
    def __init__(self, comps, files=(), own=(), im=(), pfiles=(), pop=None):
        self.comps, self.ifiles, self.own, self.im, self.pfiles = comps, list(files), [list(c) for c in own], list(im), list(pfiles)
        self.pop = pop or POP
    def tla(self):
        return dict(comps=[dict(ix=c["ix"], im=c["im"], kids=c["kids"]) for c in self.comps], files=[dict(ix=f["ix"], im=f["im"]) for f in self.ifiles],
                    own=self.own, im=self.im, pfiles=[dict(ch=f["ch"], im=f["im"]) for f in self.pfiles], pop=self.pop, id=ID)
    # the files lie in directories 0 (that of the root's descriptor), 1 and 2
    def loc(self, kind, x, frm, h):
        to = (self.ifiles if kind == "i" else self.pfiles)[x - 1]["dir"]
        n = "%s%s%s-%d.xml" % (self.uni, kind, h, x)
        up = "../" if frm else ""
        return n if to == frm else up + ("d%d/" % to if to else "") + n
    def imports(self, kind, l, frm, h): return "<imports>%s</imports>" % "".join('<import name="some.name"/>' if x < 0 else '<import location="%s"/>' % (self.loc(kind, x, frm, h) if x else "nothing.xml") for x in l) if l else ""
    def indexes(self, l):
        o = ["<fsIndexes>"]
        for d in l:
            o.append("<fsIndexDescription><label>%s</label><typeName>%s</typeName><kind>%s</kind><keys>" % (LAB[d["l"]], TN[d["ty"]], KIND[d["k"]]))
            for f, r in d["ks"]:
                o.append("<fsIndexKey><typePriority/></fsIndexKey>" if f == 0 else
                         "<fsIndexKey><featureName>%s</featureName><comparator>%s</comparator></fsIndexKey>" % (BASE[f], "reverse" if r else "standard"))
            o.append("</keys></fsIndexDescription>")
        return "".join(o) + "</fsIndexes>"
    def chains(self, l): return "".join("<priorityList>%s</priorityList>" % "".join("<type>%s</type>" % TN[t] for t in c) for c in l)
    TS = ("<typeSystemDescription><types>"
          + "".join("<typeDescription><name>%s</name><description/><supertypeName>%s</supertypeName>%s</typeDescription>" %
                    (TN[t], TN[PAR[t]], "<features><featureDescription><name>%s</name><description/><rangeTypeName>uima.cas.Integer</rangeTypeName></featureDescription></features>" % f if f else "")
                    for t, f in ((3, "x"), (4, "z"), (5, "x"), (6, None))) + "</types></typeSystemDescription>")
    def comp(self, k, h):
        c = self.comps[k - 1]
        o = ['<analysisEngineDescription%s><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>%s</primitive>' % (NS, "false" if c["kids"] else "true")]
        if c["kids"]:
            o.append("<delegateAnalysisEngineSpecifiers>" + "".join('<delegateAnalysisEngine key="d%d">%s</delegateAnalysisEngine>' % (q, self.comp(q, h)) for q in c["kids"]) + "</delegateAnalysisEngineSpecifiers>")
        else: o.append("<annotatorImplementationName>%s</annotatorImplementationName>" % library(self.uni))
        o.append("<analysisEngineMetaData><name>A%d</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>" % k)
        if c["kids"]: o.append("<flowConstraints><fixedFlow>%s</fixedFlow></flowConstraints>" % "".join("<node>d%d</node>" % q for q in c["kids"]))
        o.append(self.TS)
        if k == 1 and (self.own or self.im): o.append("<typePriorities>%s%s</typePriorities>" % (self.imports("p", self.im, 0, h), self.chains(self.own)))
        if c["ix"] or c["im"]: o.append("<fsIndexCollection>%s%s</fsIndexCollection>" % (self.imports("i", c["im"], 0, h), self.indexes(c["ix"])))
        o.append("<capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities><operationalProperties><modifiesCas>true</modifiesCas>"
                 "<multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>false</outputsNewCASes></operationalProperties></analysisEngineMetaData></analysisEngineDescription>")
        return "".join(o)
    def files(self, d, x=None):
        h = hashlib.sha1(repr((self.comps, self.ifiles, self.own, self.im, self.pfiles, self.uni)).encode()).hexdigest()[:16]
        out = {"root-%s.xml" % h: self.comp(1, h)}
        for kind, l, tag in (("i", self.ifiles, "fsIndexCollection"), ("p", self.pfiles, "typePriorities")):
            for x, f in enumerate(l):
                body = self.imports(kind, f["im"], f["dir"], h) + (self.indexes(f["ix"]) if kind == "i" else self.chains(f["ch"]))
                out[("d%d/" % f["dir"] if f["dir"] else "") + "%s%s%s-%d.xml" % (self.uni, kind, h, x + 1)] = "<%s%s>%s</%s>" % (tag, NS, body, tag)
        for n, x in reversed(list(out.items())):
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            u = "%s.%d" % (p, threading.get_ident())
            with open(u, "w", encoding="utf-8") as f: f.write(HEAD + x)
            os.replace(u, p)
        return os.path.join(d, "root-%s.xml" % h)
    def driver(self, d):
        return {"tof": [], "sofa": [], "inst": [0] * len(self.comps), "xml": self.files(d), "rw": self.rw, "pop": self.pop, "tn": TN, "fn": FN, "lab": LAB}

def population(rng):
    l = []
    for t in (1, 2, 3, 3, 4, 4, 5, 6, 5, 6, 2, 4):
        f = [rng.randrange(2) if i < 2 else rng.randrange(3) for i in range(5)]
        l.append(dict(ty=t, f=[f[i] if sub(DOM[i + 1], t) else 0 for i in range(5)]))
    return l
POP = population(random.Random(5))
OBS = [dict(op="ixids")] + [dict(op="ixall", l=l) for l in range(1, len(LAB))]

def rnddef(rng, bad):
    ty = rng.choice([1, 2, 3, 4, 5, 6, 3, 4]) if rng.random() > bad else 7
    k = rng.choice([1, 1, 2, 2, 3])
    ok = [f for f in range(1, 6) if sub(DOM[f], ty)]
    fs = rng.sample(ok, min(len(ok), rng.choice([1, 1, 2, 3])))
    if rng.random() < bad: fs.append(6)
    ks = [[f, rng.randrange(2)] for f in fs]
    if not ks or rng.random() < .3: ks.insert(rng.randrange(len(ks) + 1), [0, 0])
    return dict(l=rng.choice([2, 3, 4, 5]), k=k, ty=ty, ks=ks)
def rnd(rng):
    bad = rng.choice([0, 0, .03, .1])
    n = rng.choice([1, 1, 2, 3, 4, 5])
    comps = [dict(ix=[], im=[], kids=[]) for _ in range(n)]
    for k in range(2, n + 1): comps[rng.choice([0, 0, rng.randrange(k - 1)])]["kids"].append(k)
    nf = rng.choice([0, 1, 2, 3, 4])
    files = [dict(ix=[], im=[rng.randrange(1, nf + 1) for _ in range(rng.choice([0, 0, 1, 1, 2]))], dir=rng.randrange(3)) for _ in range(nf)]
    for c in comps:
        if nf and rng.random() < .5: c["im"] = [rng.randrange(1, nf + 1) for _ in range(rng.choice([1, 1, 2, 3]))]
    # a place has a label at most once; the same definition is found in several places
    defs, inc = {}, rng.choice([0, 0, 0, .08])
    for _ in range(rng.randrange(1, 7)):
        d = rnddef(rng, bad)
        if d["l"] in defs and rng.random() > inc: d = defs[d["l"]]
        if rng.random() < .05: d = BUILTIN
        if rng.random() < .02: d = dict(d, l=1)
        if d["l"] in defs and d["k"] == 3 and rng.random() < .3: d = dict(d, ks=[[0, 0]])      # the keys of a bag
        defs.setdefault(d["l"], d)
        places = comps + files
        q = rng.choice(places)
        if all(x["l"] != d["l"] for x in q["ix"]) or rng.random() < .05: q["ix"].append(dict(d))
    np = rng.choice([0, 0, 1, 2, 3])
    order = rng.sample(range(1, 7), 6)
    def chain():
        c = [t for t in order if rng.random() < .5]
        if rng.random() < .06: rng.shuffle(c)
        if rng.random() < bad: c.insert(rng.randrange(len(c) + 1), 7)
        return c or [rng.choice(order)]
    pf = [dict(ch=[chain() for _ in range(rng.choice([0, 1, 1, 2]))], im=[rng.randrange(1, np + 1) for _ in range(rng.choice([0, 0, 1, 1, 2]))], dir=rng.randrange(3)) for _ in range(np)]
    c = DCfg(comps, files, [chain() for _ in range(rng.choice([0, 0, 1, 2]))], [rng.randrange(1, np + 1) for _ in range(rng.choice([0, 1, 1, 2]))] if np else [], pf, population(rng))
    if rng.random() < .06: rng.choice(c.comps + c.ifiles + c.pfiles + [dict(im=c.im)])["im"].append(rng.choice([0, -1]))
    c.rw = rng.choice([0, 0, 0, 1, 2])
    c.uni = rng.choice(["", "", "", "\u20ac" * 40, "\u00fc" * 80, "\U0001f600" * 30])
    return c
class DG:
    """builds the engine and looks at everything"""
    def __init__(self, r, rng): self.r = r
    def step(self):
        o = self.r.op(op="build")
        if o["rt"] == "ok" and o["rv"] == [0]:
            for e in OBS: self.r.op(**e)
        self.r.stop = True

def enumerated(quick):
    """what root, delegate and an imported file may say about one label; all pairs of chains of three types"""
    K = [dict(l=2, k=1, ty=3, ks=[[3, 0]]), dict(l=2, k=1, ty=3, ks=[[3, 1]]), dict(l=2, k=2, ty=3, ks=[[3, 0]]), dict(l=2, k=1, ty=4, ks=[[3, 0]]), dict(l=2, k=1, ty=3, ks=[[3, 0], [0, 0]]),
         dict(l=2, k=3, ty=3, ks=[[3, 0]]), dict(l=3, k=1, ty=3, ks=[[3, 0]])]
    def mk(a, b, f, im):
        c = DCfg([dict(ix=a, im=[1] if im & 1 else [], kids=[2]), dict(ix=b, im=[1] if im & 2 else [], kids=[])], [dict(ix=f, im=[1], dir=1)])
        return c, dict(op="build", file="x"), OBS
    o = [[]] + [[k] for k in K]
    l = [lambda a=a, b=b, f=f, im=im: mk(a, b, f, im) for a in o for b in o for f in o for im in (1, 2, 3)]
    yield "decl", l, 500 if quick else 5000, {}
    ch = [[]] + [[list(p)] for n in (2, 3) for p in itertools.permutations((3, 4, 5), n)]
    ix = [dict(l=2, k=1, ty=1, ks=[[0, 0]]), dict(l=3, k=2, ty=1, ks=[[0, 0]])]
    def mp(a, f, g):
        c = DCfg([dict(ix=ix, im=[], kids=[])], (), a, [1], [dict(ch=f, im=[2], dir=1), dict(ch=g, im=[1, 2], dir=0)])
        return c, dict(op="build", file="x"), OBS
    yield "prio", [lambda a=a, f=f, g=g: mp(a, f, g) for a in ch for f in ch for g in ch], 300 if quick else 2500, {}
