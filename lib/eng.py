"""Analysis engine configurations (the record C of Engine.tla), their descriptors, and histories over them."""
import os, hashlib, random, threading
import vbuild

SOFA = ["_InitialView", "alpha", "Alpha", "alph", "alpha.x"]
LANG = ["x-unspecified", "en", "en-us", "en-gb", "de", "de-de", "fr"]     # tokens 1..
BASE = [1, 2, 2, 2, 5, 5, 7]
BADLANG = ["english", "e", "en-u", "e1", "en us"]
def rawlang(rng, l):
    """a spelling of language l"""
    if l == 0: return rng.choice(BADLANG)
    s = LANG[l - 1]
    if l == 1: return s
    return rng.choice([s, s, s.upper(), s.replace("-", "_"), s[:3] + s[3:].upper()])

class ECfg:
    """n: nodes (dicts with p, par, flow, ft, caps, maps, dll, inst; 1-based indexes), nty: number of types;
    types are tokens 1..nty, their features f<t>a, f<t>b the tokens after them"""
    def __init__(self, n, nty, params=None):
        self.n, self.nty, self.rw = n, nty, 0
        self.tof = ["v.T%d" % t for t in range(1, nty + 1)] + ["v.T%d:%s" % (t, x) for t in range(1, nty + 1) for x in "ab"]
        self.spell = {}
    def feats(self, t): return [self.nty + 2 * (t - 1) + 1, self.nty + 2 * (t - 1) + 2]
    keys = ""
    def key(self, k):
        """the key of a delegate: one of its own, or easily taken for that of another"""
        if not self.keys: return "d%d" % k
        par = self.n[k - 1]["par"]
        i = self.n[par - 1]["kids"].index(k) if par else 0
        return {"pre": "d" * (i + 1), "rpre": "e" * (9 - i), "case": ["key", "Key", "kEy", "keY", "KEY", "KEy", "KeY", "kEY"][i % 8] + "x" * (i // 8), "num": "1" + "0" * i,
                "odd": ["a.b", "a", "a.b.c", "A-1", "_InitialView", "z\u00fc", "a_b", "1"][i % 8] + "x" * (i // 8)}[self.keys]
    def tofname(self, x): return self.tof[x - 1] if x else "v.Nope"
    def tla(self):
        return {"n": [{"p": q["p"], "par": q["par"], "flow": q["flow"], "ft": q["ft"],
                       "caps": [{"ls": c["ls"], "i": c["i"], "o": c["o"], "sof": 1 if c["si"] or c["so"] else 0} for c in q["caps"]],
                       "maps": [list(m) for m in q["maps"]], "dll": q["dll"], "inst": q["inst"]} for q in self.n],
                "lang": BASE, "ns": len(SOFA)}
    def types(self):
        o = ["<typeSystemDescription><types>"]
        for t in range(1, self.nty + 1):
            o.append("<typeDescription><name>v.T%d</name><description/><supertypeName>uima.tcas.Annotation</supertypeName><features>" % t)
            for x in "ab": o.append("<featureDescription><name>%s</name><description/><rangeTypeName>uima.cas.Integer</rangeTypeName></featureDescription>" % x)
            o.append("</features></typeDescription>")
        return "".join(o) + "</types></typeSystemDescription>"
    def capxml(self, c):
        def lst(l, all_):
            o = ""
            l = list(l)
            for t in list(l):
                # both features declared with their type: say so with the attribute
                if 1 <= t <= self.nty and all_ and set(self.feats(t)) <= set(l):
                    o += '<type allAnnotatorFeatures="true">%s</type>' % self.tofname(t)
                    for f in [t] + self.feats(t): l.remove(f)
            for t in l:
                if t == 0 and not c.get("badfeat"): o += "<type>v.Nope</type>"
                elif t == 0: o += "<feature>v.T1:nope</feature>"
                elif t <= self.nty: o += "<type>%s</type>" % self.tofname(t)
                else: o += "<feature>%s</feature>" % self.tofname(t)
            return o
        x = "<capability><inputs>%s</inputs><outputs>%s</outputs>" % (lst(c["i"], c["all"]), lst(c["o"], c["all"]))
        for tag, l in (("inputSofas", c["si"]), ("outputSofas", c["so"])):
            if l: x += "<%s>%s</%s>" % (tag, "".join("<sofaName>%s</sofaName>" % SOFA[s - 1] for s in l), tag)
        return x + "<languagesSupported>%s</languagesSupported></capability>" % "".join("<language>%s</language>" % s for s in c["raw"])
    def files(self, d):
        """writes the descriptor (and those it imports); returns the path of the root's"""
        return self.write(d, 1)
    def write(self, d, k):
        x = '<?xml version="1.0" encoding="UTF-8"?>\n' + self.desc(d, k)
        p = os.path.join(d, "eng-%s.xml" % hashlib.sha1(x.encode()).hexdigest()[:20])
        if not os.path.exists(p):
            u = "%s.%d" % (p, threading.get_ident())
            with open(u, "w") as f: f.write(x)
            os.replace(u, p)
        return p
    def desc(self, d, k):
        q = self.n[k - 1]
        tag = q.get("tag", "analysisEngineDescription")
        o = ['<%s xmlns="http://uima.apache.org/resourceSpecifier"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation>'
             '<primitive>%s</primitive>' % (tag, "true" if q["p"] else "false")]
        if q["p"]:
            b = os.path.join(vbuild.BUILD, "opt")
            o.append("<annotatorImplementationName>%s</annotatorImplementationName>" %
                     [os.path.join(b, "traceann.so"), os.path.join(b, "no-such-annotator.so"), os.path.join(b, "libuima.so")][q["dll"]])
        else:
            o.append("<delegateAnalysisEngineSpecifiers>")
            for c in q["kids"]:
                o.append('<delegateAnalysisEngine key="%s">' % self.key(c))
                if self.n[c - 1].get("imp"): o.append('<import location="%s"/>' % os.path.basename(self.write(d, c)))
                else: o.append(self.desc(d, c))
                o.append("</delegateAnalysisEngine>")
            o.append("</delegateAnalysisEngineSpecifiers>")
        o.append("<analysisEngineMetaData><name>A%d</name><description/><version>1</version><vendor/>" % k)
        o.append(q.get("params") or "<configurationParameters/><configurationParameterSettings/>")
        if not q["p"]:
            t = "fixedFlow" if q["ft"] == 1 else "capabilityLanguageFlow"
            o.append("<flowConstraints><%s>%s</%s></flowConstraints>" % (t, "".join("<node>%s</node>" % self.key(c) for c in q["flow"]), t))
        o.append(self.types())
        o.append("<capabilities>%s</capabilities>" % "".join(self.capxml(c) for c in q["caps"]))
        o.append("<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed>"
                 "<outputsNewCASes>%s</outputsNewCASes></operationalProperties></analysisEngineMetaData>" % ("true" if q["inst"] else "false"))
        if not q["p"]:
            ms = [(c, m) for c in q["kids"] for m in self.n[c - 1]["maps"]]
            if ms:
                o.append("<sofaMappings>")
                for c, (a, b) in ms:
                    o.append("<sofaMapping><componentKey>%s</componentKey>" % self.key(c))
                    if not (a == 1 and self.n[c - 1].get("nodef")): o.append("<componentSofaName>%s</componentSofaName>" % SOFA[a - 1])
                    o.append("<aggregateSofaName>%s</aggregateSofaName></sofaMapping>" % SOFA[b - 1])
                o.append("</sofaMappings>")
        return "".join(o) + "</%s>" % tag
    def driver(self, d):
        return {"tof": self.tof, "sofa": SOFA, "inst": [q["inst"] for q in self.n], "xml": self.files(d), "rw": self.rw}

def rndcap(rng, c, bad, sofas, langs):
    alltof = list(range(1, len(c.tof) + 1))
    def some(k):
        l = rng.sample(alltof, rng.randint(0, min(k, len(alltof))))
        for t in [t for t in l if t <= c.nty]:
            if rng.random() < .3:
                for f in c.feats(t):
                    if f not in l: l.append(f)
        return l
    ls = rng.sample(langs, rng.randint(0 if rng.random() < .25 else 1, min(3, len(langs))))
    q = {"ls": ls, "i": some(2), "o": some(4) if rng.random() < .85 else [], "si": [], "so": [], "all": rng.random() < .5}
    if bad == "lang": q["ls"] = ls + [0]
    if bad == "in": q["i"].append(0)
    if bad == "out": q["o"].append(0)
    if bad in ("in", "out"): q["badfeat"] = rng.random() < .5
    q["raw"] = [rawlang(rng, l) for l in q["ls"]]
    if sofas:
        if rng.random() < .7: q["si"] = rng.sample(range(1, len(SOFA) + 1), rng.randint(1, 2))
        if not q["si"] or rng.random() < .5: q["so"] = [rng.randint(1, len(SOFA))]
    return q

def rndeng(rng, agg=.8, depth=3, maxn=7, bad=.08, sofa=.4, cap=.5, maps=.4, nlang=None, dllbad=.05, mult=0):
    """a random tree of components"""
    c = ECfg([], rng.randint(1, 3))
    c.keys = rng.choice(["", "", "pre", "rpre", "case", "num", "odd"])
    langs = rng.sample(range(1, len(LANG) + 1), nlang or rng.randint(2, 5))
    if 1 not in langs and rng.random() < .6: langs[0] = 1
    c.langs = langs
    def node(par, dep):
        k = len(c.n) + 1
        q = {"p": 1, "par": par, "kids": [], "flow": [], "ft": 1, "caps": [], "maps": [], "dll": 0, "inst": 0}
        c.n.append(q)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            b = rng.choice(["lang", "in", "out"]) if rng.random() < bad else ""
            q["caps"].append(rndcap(rng, c, b, rng.random() < sofa, langs))
        if par:
            used = set()
            for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < maps else 0):
                a = rng.choice([1, 1] + list(range(2, len(SOFA) + 1)))
                if a in used: continue
                used.add(a)
                q["maps"].append((a, rng.randint(1, len(SOFA))))
            q["imp"] = rng.random() < .3
            q["nodef"] = rng.random() < .4
            if q["imp"] or rng.random() < .3: q["tag"] = rng.choice(["analysisEngineDescription", "taeDescription"])
        if dep > 0 and len(c.n) < maxn and rng.random() < (agg if par == 0 else agg * .55):
            q["p"] = 0
            q["ft"] = 2 if rng.random() < cap else 1
            for _ in range(rng.randint(1, 3)):
                if len(c.n) >= maxn: break
                q["kids"].append(node(k, dep - 1))
            q["flow"] = list(q["kids"])
            if rng.random() < .3: rng.shuffle(q["flow"])
            if rng.random() < .12: q["flow"].append(rng.choice(q["kids"]))
            if len(q["flow"]) > 1 and rng.random() < .1: q["flow"].pop()
        elif rng.random() < mult: q["inst"] = rng.choice([1, 1, 2, 2, 3, 4])
        elif rng.random() < dllbad: q["dll"] = rng.choice([1, 2])
        return k
    node(0, depth)
    return c

class EG:
    """generates the operations of one history; keeps a rough idea of what exists"""
    def __init__(self, r, rng, fail=.3, w=None):
        self.r, self.c, self.rng, self.fail = r, r.cfg, rng, fail
        self.eng, self.cs, self.nolive = 0, [], False
        self.w = dict(dict(create=1, proc=10, newcas=1, mkview=4, setlang=4, views=4, getview=2, reconf=2, batch=2, coll=2, destroy=1, delete=1, init=1,
                           isinit=2, rescas=1), **(w or {}))
        self.prims = [k for k in range(1, len(self.c.n) + 1) if self.c.n[k - 1]["p"]]
    def op(self, **e): return self.r.op(**e)
    def rnd_scr(self, ms):
        o, rng = [], self.rng
        if rng.random() < self.fail:
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.choice([0, 95001, 95002, 95003, -96001, -96002])
                o.append({"a": rng.choice(self.prims), "m": rng.choice(ms), "r": r, "acts": [], "emit": 0})
                # an annotator whose destroy throws is not deleted
                if o[-1]["m"] == 3 and r < 0: self.nolive = True
        if 5 in ms:
            for k in self.prims:
                if rng.random() < .5:
                    o.append({"a": k, "m": 5, "r": rng.choice([0] * 8 + [95004, -96003]) if rng.random() < self.fail else 0, "acts": [self.act() for _ in range(rng.randint(1, 3))], "emit": 0})
            rng.shuffle(o)
        return o
    def lang(self):
        l = self.rng.choice([0] + self.c.langs * 3 + list(range(1, len(LANG) + 1)))
        return l, rawlang(self.rng, l)
    def act(self):
        rng = self.rng
        k = rng.choice(["gv", "gv", "cv", "sl", "gv", "gv", "cv", "sl", "tx"])
        if k == "sl":
            l, s = self.lang()
            return {"k": k, "n": l, "val": s}
        return {"k": k, "n": rng.randint(1, len(SOFA)), "val": ""}
    def view(self, ci):
        v = self.op(op="views", c=ci + 1)
        if self.r.dead: return 1
        return self.rng.choice([1] + v["rv"])
    def create(self):
        for _ in range(4):
            o = self.op(op="create", scr=self.rnd_scr([1, 2, 3, 3]) if self.rng.random() < .3 else [])
            if self.r.dead: return
            self.cs = []
            if o["rv"][0] == 0: self.eng = 1; break
    def step(self):
        rng = self.rng
        if self.eng == 0: self.create()
        if self.eng == 0: self.r.stop = True; return
        if not self.cs and self.eng == 1: return self.newcas()
        k = rng.choices(list(self.w), list(self.w.values()))[0]
        if k == "create": return self.create() if self.eng == 2 else None
        if k == "newcas": return self.newcas() if self.eng == 1 and len(self.cs) < 3 else None
        if k in ("reconf", "batch", "coll", "destroy", "delete", "init"):
            if k == "destroy" and rng.random() < .6: return
            o = self.op(op=k, scr=self.rnd_scr([{"reconf": 4, "batch": 6, "coll": 7, "destroy": 3, "delete": 3, "init": 1}[k]]))
            if self.r.dead: return
            if k == "destroy": self.eng = 2
            if k == "delete":
                self.eng, self.cs = 0, []
                if not self.nolive: self.op(op="live")
            return
        if k == "isinit": return self.op(op="isinit")
        if not self.cs: return
        ci = rng.randrange(len(self.cs))
        if k == "mkview": return self.op(op="mkview", c=ci + 1, n=rng.randint(1 if rng.random() < .1 else 2, len(SOFA)))
        if k == "getview": return self.op(op="getview", c=ci + 1, n=rng.randint(1, len(SOFA)))
        if k == "views": return self.op(op="views", c=ci + 1)
        if k == "rescas":
            self.op(op="rescas", c=ci + 1)
            if rng.random() < .85: self.op(op="text", c=ci + 1)
            return
        v = self.view(ci)
        if self.r.dead: return
        if k == "setlang":
            l, s = self.lang()
            return self.op(op="setlang", c=ci + 1, n=v, lg=l, val=s)
        if k == "proc":
            al = rng.random() < .5
            rs = [] if al else rng.sample(range(1, len(self.c.tof) + 1), rng.randint(0, len(self.c.tof)))
            return self.op(op="process", c=ci + 1, n=v, all=int(al), rs=rs, scr=self.rnd_scr([5]))
    def newcas(self):
        self.op(op="newcas")
        self.cs.append(1)
        if self.rng.random() < .85: self.op(op="text", c=len(self.cs))

class PG(EG):
    """histories over CAS pools and multipliers"""
    def __init__(self, r, rng):
        EG.__init__(self, r, rng, .15, dict(proc=3, mkview=2, views=1, getview=0, reconf=1, batch=1, coll=1, rescas=2))
        self.pw = dict(pget=8, prel=8, prelx=1, prelo=1, pview=3, pviews=3, ptext=3, plen=4, pn=4, ihn=5, inx=9, other=6)
        self.its, self.seen, self.used = 0, {}, {}
        self.mults = [k for k in self.prims if self.c.n[k - 1]["inst"]]
    def path(self, k):
        p = []
        while self.c.n[k - 1]["par"]:
            p.insert(0, self.c.key(k))
            k = self.c.n[k - 1]["par"]
        return p
    def rnd_scr(self, ms):
        o = EG.rnd_scr(self, ms)
        if 5 in ms:
            for k in self.mults:
                if self.rng.random() < .8:
                    o.append({"a": k, "m": 5, "r": 0, "acts": [], "emit": self.rng.choice([0, 1, 1, 2, 3, 5])})
        return o
    def node(self):
        """a component in use whose context can be asked, mostly one with a pool"""
        l = [k for k in (self.mults if self.rng.random() < .9 else range(1, len(self.c.n) + 1)) if self.inuse(k)]
        return self.rng.choice(l) if l else 1
    def inuse(self, k):
        q = self.c.n[k - 1]
        return q["par"] == 0 or k in self.c.n[q["par"] - 1]["flow"] and self.inuse(q["par"])
    def step(self):
        rng = self.rng
        if self.eng != 1 or not self.cs:
            n = len(self.cs)
            EG.step(self)
            if not n: self.its, self.seen, self.used = 0, {}, {}
            return
        k = rng.choices(list(self.pw), list(self.pw.values()))[0]
        if k == "other":
            EG.step(self)
            if not self.cs: self.its, self.seen, self.used = 0, {}, {}
            return
        if k == "pn":
            ci = rng.randrange(len(self.cs))
            v = self.view(ci)
            if self.r.dead: return
            o = self.op(op="pn", c=ci + 1, n=v, all=1, rs=[], it="i%d" % (self.its % 3), scr=self.rnd_scr([5]))
            if not self.r.dead and o["rt"] == "ok" and o["rv"][0] == 0: self.its += 1
            return
        if k in ("ihn", "inx"):
            if not self.its: return
            it = "i%d" % rng.randrange(min(self.its, 3))
            o = self.op(op="ihn", it=it)
            if self.r.dead or k == "ihn" or (o["rv"] == [0] and self.c.n[0]["p"]): return
            o = self.op(op="inx", it=it)
            if not self.r.dead and o["rt"] == "ok": self.got(1, o["rv"][0])
            return
        n = self.node()
        if k == "pget":
            o = self.op(op="pget", k=n, path=self.path(n))
            if not self.r.dead and o["rt"] == "ok":
                self.got(n, o["rv"][0])
                if rng.random() < .7: self.op(op=rng.choice(["plen", "pviews"]), k=n, x=o["rv"][0], path=self.path(n))
            return
        if k == "prelx": return self.op(op="prelx", k=n, c=rng.randrange(len(self.cs)) + 1, path=self.path(n))
        if k == "prelo":
            l = [(m, x) for m in self.seen for x in range(1, self.seen[m] + 1) if m != n]
            if l:
                m, x = rng.choice(l)
                self.op(op="prelo", k=n, o=m, x=x, path=self.path(n))
            return
        if not self.seen.get(n): return
        x = rng.randint(1, self.seen[n]) if k == "prel" and rng.random() < .15 or not self.used[n] else rng.choice(sorted(self.used[n]))
        if k == "prel":
            v = 1 if rng.random() < .6 else rng.randint(2, len(SOFA))
            if v != 1:
                o = self.op(op="pviews", k=n, x=x, path=self.path(n))
                if self.r.dead: return
                v = rng.choice([1] + o["rv"])
            self.op(op="prel", k=n, x=x, n=v, path=self.path(n))
            self.used[n].discard(x)
            return
        if x not in self.used[n]: return
        if k == "pview": return self.op(op=k, k=n, x=x, n=rng.randint(1 if rng.random() < .1 else 2, len(SOFA)), path=self.path(n))
        if k == "ptext": return self.op(op=k, k=n, x=x, len=rng.randint(1, 5), path=self.path(n))
        self.op(op=k, k=n, x=x, path=self.path(n))
    def got(self, n, x):
        self.seen[n] = max(self.seen.get(n, 0), x)
        self.used.setdefault(n, set()).add(x)
