"""Configuration parameters: the record C of Params.tla, descriptors, and histories of lookups and settings."""
import random
from xml.sax.saxutils import escape
import eng, vals

GROUP = ["g", "en", "en-us", "en-us-x", "de", "de-de", "other", "zz-top"]     # tokens 1..
CUT = [0, 0, 2, 3, 0, 5, 0, 0]       # zz is no group here: cut off to a name no descriptor declares
NAME = ["p", "P", "param", "par"]
TYPE = {1: "String", 2: "Integer", 3: "Float", 4: "Boolean"}
STRS = [i for i in vals.ANYSTR[1:] if i != vals.TOK[""]] + [vals.TOK[""]]
# the parser trims the text of elements
TRIMMED = [i for i in STRS if vals.STR[i] == vals.STR[i].strip()]
FIN = [t for t in vals.F_ORD if abs(vals.FLT[t]) != float("inf")]
ENVVAL = "red"

def rndval(rng, ty, xml):
    if ty == 1: return rng.choice(TRIMMED if xml else STRS)
    if ty == 2: return rng.choice(vals.INTS)
    if ty == 3: return rng.choice(FIN if xml else vals.F_ORD)
    return rng.randint(0, 1)
def text(rng, ty, v):
    if ty == 1:
        s = vals.STR[v]
        if s == ENVVAL and rng.random() < .5: return "<envVarRef>VERIF_ENV</envVarRef>"
        if "]]>" not in s and "\r" not in s and rng.random() < .15: return "<![CDATA[%s]]>" % s
        return escape(s, {"\r": "&#13;"})
    if ty == 2: return str(v)
    if ty == 3: return repr(vals.FLT[v])
    return "true" if v else "false"
def pad(rng, s): return "\n  %s\n" % s if rng.random() < .15 else s
def driverval(ty, v):
    return vals.hexs(v) if ty == 1 else vals.FENC[v] if ty == 3 else v

class PCfg(eng.ECfg):
    def tla(self):
        return {"n": [{"par": q["par"], "gs": q["gs"], "ps": q["ps"], "ss": q["ss"], "strat": q["strat"], "dg": q["dg"]} for q in self.n], "cut": CUT}
    def driver(self, d):
        return dict(eng.ECfg.driver(self, d), groups=GROUP)
    def sep(self, rng, l): return rng.choice([" ", " ", "  ", "\n "]).join(l)
    def paramsxml(self, rng, q):
        o = ["<configurationParameters"]
        if q["dg"]: o.append(' defaultGroup="%s"' % GROUP[q["dg"] - 1])
        if q["strat"] or rng.random() < .3: o.append(' searchStrategy="%s"' % ["none", "default_fallback", "language_fallback"][q["strat"]])
        o.append(">")
        def decl(p):
            x = "<configurationParameter><name>%s</name><description>d</description><type>%s</type>" % (NAME[p["nm"] - 1], TYPE[p["ty"]])
            if p["mu"] or rng.random() < .5: x += "<multiValued>%s</multiValued>" % ("true" if p["mu"] else "false")
            if p["man"] or rng.random() < .5: x += "<mandatory>%s</mandatory>" % ("true" if p["man"] else "false")
            if p["rst"]: x += "<restrictOverrideTo>%s</restrictOverrideTo>" % self.sep(rng, [self.key(d) for d in p["rst"]])
            return x + "</configurationParameter>"
        o += [decl(p) for p in q["ps"] if p["g"] == 0]
        com = [p for p in q["ps"] if p["g"] == -1]
        if com: o.append("<commonParameters>%s</commonParameters>" % "".join(map(decl, com)))
        for names, ps in q["gx"]:
            o.append('<configurationGroup names="%s">%s</configurationGroup>' % (self.sep(rng, [GROUP[g - 1] for g in names]), "".join(map(decl, ps))))
        o.append("</configurationParameters><configurationParameterSettings>")
        def pair(x):
            tag = TYPE[x["ty"]].lower()
            v = "".join("<%s>%s</%s>" % (tag, pad(rng, text(rng, x["ty"], y)), tag) for y in x["v"])
            return "<nameValuePair><name>%s</name><value>%s</value></nameValuePair>" % (NAME[x["nm"] - 1], "<array>%s</array>" % v if x["mu"] else v)
        o += [pair(x) for x in q["ss"] if x["g"] == 0]
        for names, ss in q["sx"]:
            o.append('<settingsForGroup name="%s">%s</settingsForGroup>' % (self.sep(rng, [GROUP[g - 1] for g in names]), "".join(map(pair, ss))))
        o.append("</configurationParameterSettings>")
        return "".join(o)

def rndpar(rng, bad=.06):
    base = eng.rndeng(rng, agg=.85, depth=3, maxn=6, bad=0, sofa=0, cap=.2, maps=0, dllbad=0)
    c = PCfg(base.n, base.nty)
    c.keys = base.keys
    for q in c.n:
        for k in q["caps"]: k["o"], k["i"] = [], []
    # one type for each name mostly, so that overriding is possible
    tys = {nm: (rng.randint(1, 4), rng.random() < .35) for nm in range(1, len(NAME) + 1)}
    grouped = rng.random() < .65
    for k, q in enumerate(c.n, 1):
        def decl(nm):
            ty, mu = tys[nm] if rng.random() < .93 else (rng.randint(1, 4), rng.random() < .5)
            rst = rng.sample(q["kids"], rng.randint(1, len(q["kids"]))) if q["kids"] and rng.random() < .25 else []
            return {"nm": nm, "ty": ty, "mu": int(mu), "man": int(rng.random() < .04), "rst": rst}
        def names(n): return rng.sample(range(1, len(NAME) + 1), rng.randint(0 if rng.random() < .2 else 1, n))
        q["gs"], q["ps"], q["ss"], q["gx"], q["sx"] = [], [], [], [], []
        q["strat"], q["dg"] = rng.choice([0, 1, 2, 2]), 0
        if grouped if rng.random() < .9 else not grouped:
            com = names(2) if rng.random() < .6 else []
            for nm in com: q["ps"].append(dict(decl(nm), g=-1))
            pool = list(range(1, len(GROUP) + 1))
            rng.shuffle(pool)
            for _ in range(rng.randint(0 if com else 1, 3)):
                gs = [pool.pop() for _ in range(rng.choice([1, 1, 1, 2, 2]))]
                if rng.random() < bad * .3 and q["gs"]: gs.append(q["gs"][0])
                ps = [decl(nm) for nm in names(3) if nm not in com or rng.random() < bad * .3]
                q["gx"].append((gs, ps))
                q["gs"] += gs
                for p in ps:
                    for g in gs: q["ps"].append(dict(p, g=g))
            if rng.random() < .7: q["dg"] = rng.choice(q["gs"]) if q["gs"] and rng.random() < .9 else rng.randint(1, len(GROUP))
            allg = list(dict.fromkeys(q["gs"] + ([q["dg"]] if q["dg"] else [])))
            for _ in range(rng.randint(0, 4)):
                if not allg: break
                gs = rng.sample(allg, rng.choice([1, 1, 2]) if len(allg) > 1 else 1)
                if rng.random() < bad * .5: gs = [rng.randint(1, len(GROUP))]
                ok = [nm for nm in range(1, len(NAME) + 1) if all(any(p["nm"] == nm and p["g"] in (g, -1) for p in q["ps"]) for g in gs)
                      and not any(x["nm"] == nm and x["g"] in gs for x in q["ss"])]
                if rng.random() < bad * .5: ok = list(range(1, len(NAME) + 1))
                l = rng.sample(ok, rng.randint(0, len(ok)))
                ss = [setting(rng, q, gs[0], nm, tys) for nm in l]
                q["sx"].append((gs, ss))
                for x in ss:
                    for g in gs: q["ss"].append(dict(x, g=g))
        else:
            for nm in names(4): q["ps"].append(dict(decl(nm), g=0))
            if q["ps"] and rng.random() < bad * .3: q["ps"].append(dict(q["ps"][0]))
            for p in q["ps"]:
                if rng.random() < .65: q["ss"].append(dict(setting(rng, q, 0, p["nm"], tys), g=0))
            if rng.random() < bad * .5: q["ss"].append(dict(setting(rng, q, 0, rng.randint(1, len(NAME)), tys), g=0))
        q["params"] = c.paramsxml(rng, q)
        if rng.random() < .3: q["imp"] = q["par"] != 0
    return c
def setting(rng, q, g, nm, tys):
    d = [p for p in q["ps"] if p["nm"] == nm and p["g"] in (g, -1)]
    ty, mu = (d[0]["ty"], d[0]["mu"]) if d and rng.random() < .96 else (rng.randint(1, 4), 0)
    n = rng.choice([0, 1, 2, 3]) if mu else 1
    return {"nm": nm, "ty": ty, "mu": int(mu), "v": [rndval(rng, ty, True) for _ in range(n)], "g": g}

class PARG:
    """generates the operations of one history"""
    def __init__(self, r, rng):
        self.r, self.c, self.rng, self.up = r, r.cfg, rng, False
    def path(self, k):
        p = []
        while self.c.n[k - 1]["par"]:
            p.insert(0, self.c.key(k))
            k = self.c.n[k - 1]["par"]
        return p
    def step(self):
        rng, c = self.rng, self.c
        if not self.up:
            o = self.r.op(op="pcreate")
            if self.r.dead: return
            self.up = o["rv"][0] == 0
            if not self.up: self.r.stop = True
            return
        k = rng.randint(1, len(c.n))
        q = c.n[k - 1]
        nms = [p["nm"] for p in q["ps"]]
        nm = rng.choice(nms) if nms and rng.random() < .85 else rng.randint(1, len(NAME))
        g = -3 if rng.random() < (.35 if any(p["g"] for p in q["ps"]) else .9) else rng.choice(q["gs"]) if q["gs"] and rng.random() < .4 else rng.randint(1, len(GROUP))
        e = dict(k=k, nm=nm, g=g, path=self.path(k), name=NAME[nm - 1])
        if g != -3: e["group"] = GROUP[g - 1]
        op = rng.choices(["getp", "setp", "isdef", "gnames"], [10, 5, 1, 1])[0]
        if op in ("getp", "setp"):
            a = k
            d = [p for p in q["ps"] if p["nm"] == nm]
            while not d and c.n[a - 1]["par"]:
                a = c.n[a - 1]["par"]
                d = [p for p in c.n[a - 1]["ps"] if p["nm"] == nm]
            ty, mu = (d[0]["ty"], d[0]["mu"]) if d and rng.random() < .93 else (rng.randint(1, 4), rng.randint(0, 1))
            kind = {1: ["str", "str", "sbs"], 2: ["int", "int", "size"], 3: ["float"], 4: ["bool"]}[ty]
            e.update(ty=ty, mu=mu, multi=mu, kind=rng.choice(kind))
            if op == "setp":
                if e["kind"] == "sbs": e["kind"] = "str"
                if ty == 3 and rng.random() < .3: e["kind"] = "double"
                v = [rndval(rng, ty, False) for _ in range(rng.choice([0, 1, 2, 3]) if mu else 1)]
                e.update(v=v, vals=[driverval(ty, x) for x in v])
            elif mu and e["kind"] == "size": e["kind"] = "int"
        self.r.op(op=op, **e)
