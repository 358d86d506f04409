"""Random histories of CAS operations, generated while they run (the generator sees the handles and types that exist)."""
import vals
from cfg import *

KINDS = ["int", "float", "str", "bool", "byte", "short", "long", "double", "ref"]
SPECIALK = {k: i for i, k in enumerate(KINDS)}

class G:
    def __init__(self, rec, rng):
        self.r, self.cfg, self.rng = rec, rec.cfg, rng
        self.ty = [0]              # type of each handle, 0 = null handle
        self.nviews = 1
        self.its = []              # kinds of live iterators
        self.indexed = {}          # (view, handle) -> count
        self.sofas = {}            # view -> handle
        self.keyfeats = {f for t, k, ks in self.cfg.ix for f, r in ks if f}
    def op(self, **e):
        """one operation; learns new handles"""
        if self.r.dead: return None
        o = self.r.op(**e)
        if o is None or o["rt"] != "ok": return o
        n = e["op"]
        if n in ("cr", "clone", "clone2", "cra", "crl", "can"): self.learn(o["rv"][0])
        elif n in ("get", "aget", "lhead") and e.get("k") == "ref": self.learn(o["rv"][0])
        elif n in ("ltail", "laddl", "lrem", "lfeat", "garr", "gsofa", "doc", "fcov"): self.learn(o["rv"][0] if o["rv"] else 0)
        elif n == "sofainfo": self.learn(o["rv"][5])
        elif n in ("cv",): self.learn(o["rv"][1])
        elif n in ("dtext", "sds", "sda", "sdu", "sfs"):
            if o["rv"]: self.learn(o["rv"][0]); self.learn(o["rv"][1])
        return o
    def learn(self, h):
        while len(self.ty) <= h:                       # new handles come one by one
            k = len(self.ty)
            self.ty.append(0)
            o = self.r.op(op="type", x=k)
            if o and o["rt"] == "ok": self.ty[k] = o["rv"][0]
    def h(self, pred=None, null=.03):
        """a handle whose type satisfies pred (0 = the null handle)"""
        if self.rng.random() < null: return 0
        c = [i for i in range(1, len(self.ty)) if pred is None or (self.ty[i] and pred(self.ty[i]))]
        if not c: return 0
        return self.rng.choice(c[-6:] if self.rng.random() < .5 else c)
    def v(self, k, ordered=False): return vals.rnd(self.rng, k, ordered)

    # ------------------------------------------------ features (P03)
    def anytype(self): return self.rng.randint(0, self.cfg.nt) if self.rng.random() < .25 else self.rng.choice(self.goodtypes())
    def goodtypes(self):
        return [t for t in range(35, self.cfg.nt + 1) if self.cfg.creatable(t)] or [1]
    def creatable_t(self):
        for _ in range(20):
            t = self.anytype()
            if t == 0 or self.cfg.kind(t) not in ARR and t not in (5, 33): return t
        return 1
    def val_for(self, f):
        c = self.cfg
        if c.kind(c.rng(f)) == "strsub" and self.rng.random() < .7: return self.rng.choice(list(c.allowed(c.rng(f))) or [0])
        return self.v(c.facc(f), f in self.keyfeats)
    def step_feat(self):
        c, r = self.cfg, self.rng
        p = r.random()
        if p < .18 or len(self.ty) < 4: return self.op(op="cr", t=self.creatable_t(), w=1)
        if p < .22: return self.op(op="cra", k=r.choice(KINDS), n=r.randint(0, 3), w=1)
        if p < .24: return self.op(op="crl", k=r.choice(["int", "float", "str", "ref"]))
        x = self.h(lambda t: c.kind(t) not in ARR)
        # a structure and its copy must not share anything: look at them closely
        pair = getattr(self, "pair", None)
        if pair and r.random() < .35: x = r.choice(pair)
        t = self.ty[x] if x else 0
        fs = c.featsof(t) if t else []
        if pair and x in pair and r.random() < .5: fs = [f for f in fs if c.facc(f) != "ref" and f not in (9, 10, 12, 13, 14)] or fs
        if fs and r.random() < .9: f = r.choice(fs)
        else: f = r.randint(0, c.nf)
        if f in (9, 10, 11, 12, 13, 14): f = 0          # subject structures are P11's
        k = c.facc(f) if f and r.random() < .9 else r.choice(KINDS)
        if p < .62:
            if k == "ref":
                if f and c.facc(f) == "ref" and r.random() < .85:
                    rt = c.rng(f)
                    y = self.h(lambda q: c.subsumes(rt, q), .05)
                    if y == 0 and r.random() < .6:
                        sub = [q for q in c.subtypes(rt) if c.creatable(q) and q not in (5, 33)]
                        if sub: self.op(op="cr", t=r.choice(sub), w=1); y = len(self.ty) - 1
                else: y = self.h()
                if f in (2, 4, 6, 8) or f == 15: return None   # list tails: P05
                return self.op(op="set", x=x, f=f, k="ref", y=y)
            y = self.val_for(f) if f and c.facc(f) == k else self.v(k)
            e = dict(op="set", x=x, f=f, k=k, y=y, val=vals.enc(k, y))
            if k == "str" and r.random() < .3: e["ext"] = 1
            return self.op(**e)
        if p < .86: return self.op(op="get", x=x, f=f, k=k)
        if p < .89:
            if f and c.facc(f) in ("ref", "str"): return self.op(op="unt", x=x, f=f)
            return None
        if p < .91: return self.op(op="type", x=x)
        if p < .93:
            x = self.h(lambda t: t not in (33,) and (c.kind(t) not in ARR or r.random() < .1))
            fs = [f for f in c.featsof(self.ty[x]) if c.facc(f) != "ref" and f not in (9, 10, 12, 13, 14)] if x and self.ty[x] else []
            for f in r.sample(fs, min(len(fs), r.randint(0, 6))):
                y = self.val_for(f)
                self.op(op="set", x=x, f=f, k=c.facc(f), y=y, val=vals.enc(c.facc(f), y))
            o = self.op(op="clone", x=x)
            if o and o["rt"] == "ok" and x:
                y = o["rv"][0]
                self.pair = (x, y)
                for f in r.sample(fs, min(len(fs), r.randint(0, 4))):
                    q = r.choice([x, y]); v = self.val_for(f)
                    self.op(op="set", x=q, f=f, k=c.facc(f), y=v, val=vals.enc(c.facc(f), v))
                if r.random() < .3: return self.op(op="dump")
            return o
        if p < .95:
            x2 = self.h(lambda q: c.kind(q) not in ARR and q != 33)
            return self.op(op="clone2", x=x2, t=self.creatable_t(), w=1)
        if p < .96: return self.op(op="same", x=self.h(), y=self.h())
        if p < .98: return self.op(op="junk", n=r.choice([1, 5, 400]))
        return self.op(op="dump")

    # ------------------------------------------------ arrays (P04)
    def step_arr(self):
        c, r = self.cfg, self.rng
        p = r.random()
        if p < .15 or len(self.ty) < 3: return self.op(op="cra", k=r.choice(KINDS), n=r.choice([0, 1, 2, 3, 5, 17]), w=1)
        if p < .2: return self.op(op="cr", t=self.creatable_t(), w=1)
        x = self.h(lambda t: c.kind(t) in ARR) if r.random() < .95 else self.h()
        t = self.ty[x] if x else 0
        k = ELEM.get(c.kind(t), "int") if t else "int"
        if r.random() < .05: k = r.choice(KINDS)
        n = getattr(self, "alen", {}).get(x, 3)
        if not hasattr(self, "alen"): self.alen = {}
        if x and x not in self.alen and t and c.kind(t) in ARR:
            o = self.op(op="alen", x=x, k=ELEM[c.kind(t)])
            if o and o["rt"] == "ok": self.alen[x] = o["rv"][0]
            n = self.alen.get(x, 3)
        i = r.randint(0, max(n - 1, 0)) if r.random() < .9 else r.choice([n, n + 1, -1, 2147483647])
        if p < .45:
            y = self.h(None, .15) if k == "ref" else self.v(k)
            return self.op(op="aset", x=x, k=k, i=i, y=y, val=vals.enc(k, y) if k != "ref" else y)
        if p < .62: return self.op(op="aget", x=x, k=k, i=i)
        if p < .66: return self.op(op="alen", x=x, k=k)
        if p < .78:
            m = r.choice([n, n + 2, 1])
            b = r.randint(0, n) if r.random() < .9 else n + 1
            e = r.randint(b, max(b, n)) if r.random() < .85 else r.choice([n + 1, max(b - 1, 0)])
            o = r.randint(0, 2)
            need = max(o + max(e - b, 0), m)
            if k == "ref":
                buf = [0] * need; bv = buf
            else:
                buf = [self.v(k) for _ in range(need)]; bv = [vals.enc(k, y) for y in buf]
            return self.op(op="acto", x=x, k=k, b=b, e=e, o=o, src=buf, vals=bv, how=r.randint(0, 0))
        if p < .9:
            m = r.randint(0, n + 2)
            b = r.randint(0, m)
            e = r.randint(b, m)
            o = r.randint(0, max(n - (e - b), 0)) if r.random() < .8 else r.randint(0, n + 1)
            if k == "ref": buf = [self.h(None, .2) for _ in range(m)]; bv = buf
            else: buf = [self.v(k) for _ in range(m)]; bv = [vals.enc(k, y) for y in buf]
            return self.op(op="acfrom", x=x, k=k, b=b, e=e, o=o, src=buf, vals=bv)
        if p < .93: return self.op(op="clone", x=x) if not t or c.kind(t) not in ARR else self.op(op="same", x=x, y=self.h())
        if p < .96: return self.op(op="junk", n=r.choice([1, 300]))
        return self.op(op="dump")

    # ------------------------------------------------ lists (P05)
    LB = {"ref": 11, "float": 14, "int": 17, "str": 20}
    def step_list(self):
        c, r = self.cfg, self.rng
        p = r.random()
        k = self.k if hasattr(self, "k") and r.random() < .8 else r.choice(list(self.LB))
        self.k = k
        if p < .12 or len(self.ty) < 3: return self.op(op="crl", k=k)
        if p < .15:
            t = self.creatable_t()
            # a non-empty node is made by the list operations, which give it a tail
            return self.op(op="cr", t=t if t not in (13, 16, 19, 22) else t - 1, w=1)
        b = self.LB[k]
        x = self.h(lambda t: c.subsumes(b, t)) if r.random() < .96 else self.h()
        if x == 0 and r.random() < .9: return self.op(op="crl", k=k)
        y = (self.h(None, .1) if k == "ref" else (r.choice([0, 1, 2, 3]) if r.random() < .6 else self.v(k)))
        a = dict(x=x, k=k, y=y, val=y if k == "ref" else vals.enc(k, y))
        y2 = self.h(lambda t: c.subsumes(b, t)) if r.random() < .95 else self.h()
        if p < .30: o = self.op(op="laddf", **a)
        elif p < .48: o = self.op(op="laddl", **a)
        elif p < .53: return self.op(op="lsethead", **a)
        elif p < .58: return self.op(op="lhead", x=x, k=k)
        elif p < .64: return self.op(op="ltail", x=x, k=k)
        elif p < .67: return self.op(op="lsettail", x=x, k=k, y=y2)
        elif p < .74: o = self.op(op="lapp", x=x, k=k, y=y2)
        elif p < .79: o = self.op(op="lpre", x=x, k=k, y=y2)
        elif p < .82: o = self.op(op="lnext", x=x, k=k)
        elif p < .89:
            # equality of NaN, of the two zeros and of null references is not a matter of lists
            if k == "float" and y in (0, 90, 91) or k == "ref" and y == 0: return self.op(op="llen", x=x, k=k)
            o = self.op(op="lrem", **a)
        elif p < .91: return self.op(op="llen", x=x, k=k)
        elif p < .92: return self.op(op="lemp", x=x, k=k)
        elif p < .97: return self.op(op="ldump", x=x, k=k)
        elif p < .98: return self.op(op="dump")
        else:
            # list valued features
            hs = [i for i in range(1, len(self.ty)) if self.ty[i] >= 37]
            if not hs: return self.op(op="cr", t=r.choice(self.goodtypes()), w=1)
            x = r.choice(hs)
            fl = [f for f in c.featsof(self.ty[x]) if c.subsumes(10, c.rng(f)) and c.rng(f) != 10]
            f = r.choice(fl) if fl and r.random() < .8 else r.randint(0, c.nf)
            kk = {11: "ref", 14: "float", 17: "int", 20: "str"}.get(c.rng(f) if f else 0, k)
            if r.random() < .5: return self.op(op="lhas", x=x, f=f, k=kk)
            return self.op(op="lfeat", x=x, f=f, k=kk)
        if x: self.retype(x)
        return o
    def retype(self, x):
        o = self.r.op(op="type", x=x)
        if o and o["rt"] == "ok": self.ty[x] = o["rv"][0]
        elif o: self.ty[x] = 0

    # ------------------------------------------------ indexes, iterators, filters (P06-P10)
    W_IX = dict(add=22, rem=9, it=12, cur=30, size=8, find=6, valid=3, touch=4)
    def prio(self):
        n = len(self.cfg.ix)
        if self.cfg.ix[n - 1] != (1, "sorted", [(0, 0)]): n = 1        # only annotations are ordered by priority
        ts = [t for t in self.cfg.priotypes() if self.cfg.subsumes(self.cfg.ix[n - 1][0], t)]
        self.rng.shuffle(ts)
        return self.op(op="prio", n=n, ts=ts)
    def setup_idx(self):
        """a pool of structures with small ordered values"""
        c, r = self.cfg, self.rng
        self.cnt = {}              # (view, handle) -> times added
        self.dups = set()          # views where something is in twice
        self.its = []
        self.prio()
        if r.random() < .35:
            for y in r.sample([vals.TOK["viewA"], vals.TOK["viewB"]], r.randint(1, 2)):
                if self.op(op="cv", y=y, val=vals.hexs(y), w=1)["rt"] == "ok": self.nviews += 1
        self.small = r.random() < .6
        self.home = {}
        for _ in range(r.randint(4, 14)): self.newfs()
    def kv(self, k):
        """a value for a key: few different ones, so that ties happen"""
        r = self.rng
        if k == "str": return r.choice([0, vals.TOK[""], vals.TOK["a"], vals.TOK["ab"], vals.TOK["b"], vals.TOK["\uff46ull"], vals.TOK["\U0001F600x"]])
        if k in ("int", "byte", "short"): return r.choice([0, 1, 2, -1, 3]) if r.random() < .75 else vals.rnd(r, k, True)
        if k in ("float", "double"): return r.choice([0, 3, -3, 5, -5, 5, 6, -6]) if r.random() < .85 else vals.rnd(r, k, True)
        if k == "long": return r.choice([0, 1, -1, 6, -6, 5, -5, 8, -9]) if r.random() < .85 else vals.rnd(r, k, True)
        return vals.rnd(r, k, True)
    def newfs(self):
        c, r = self.cfg, self.rng
        ts = [t for t in range(35, c.nt + 1) if c.kind(t) not in PRIM] + [1, 34]
        t = r.choice(ts)
        w = r.randint(1, self.nviews)
        if c.subsumes(35, t):
            b = r.randint(0, 6) if self.small else r.randint(0, 40)
            e = b + (r.randint(0, 5) if self.small else r.randint(0, 40))
            o = self.op(op="can", w=w, t=t, b=b, e=e)
        else: o = self.op(op="cr", t=t, w=w)
        if not o or o["rt"] != "ok": return 0
        x = o["rv"][0]
        self.home[x] = w
        for f in c.featsof(t):
            if f in (15, 16, 17): continue
            k = c.facc(f)
            if k == "ref":
                if r.random() < .5:
                    rt = c.rng(f)
                    y = self.h(lambda q: c.subsumes(rt, q), .2)
                    if y and c.kind(rt) not in ("lfs", "lint", "lstr", "lfloat", "lbase"): self.op(op="set", x=x, f=f, k="ref", y=y)
            elif r.random() < .6:
                y = self.kv(k)
                if c.kind(c.rng(f)) == "strsub": y = r.choice(list(c.allowed(c.rng(f))))
                self.op(op="set", x=x, f=f, k=k, y=y, val=vals.enc(k, y))
        return x
    def pool(self): return [x for x in self.home]
    def ixpick(self, kinds=None):
        """an index number and a type to narrow it to (0: the whole)"""
        c, r = self.cfg, self.rng
        ns = [i + 1 for i, q in enumerate(c.ix) if kinds is None or q[1] in kinds]
        n = r.choice(ns)
        t = 0 if r.random() < .5 else r.choice(c.subtypes(c.ix[n - 1][0]))
        return n, t
    def add(self, w, x):
        if self.cnt.get((w, x), 0) and self.rng.random() < .85: return None
        o = self.op(op="add", w=w, x=x)
        if o and o["rt"] == "ok": self.its = []
        if o and o["rt"] == "ok":
            self.cnt[w, x] = self.cnt.get((w, x), 0) + 1
            if self.cnt[w, x] > 1: self.dups.add(w)
        return o
    def rem(self, w, x):
        o = self.op(op="rem", w=w, x=x)
        if o and o["rt"] == "ok": self.its = []
        if o and o["rt"] == "ok" and self.cnt.get((w, x), 0): self.cnt[w, x] -= 1
        return o
    def flt(self, t, depth=2, inapp=False):
        c, r = self.cfg, self.rng
        p = r.random()
        if depth > 0 and p < .45:
            o = r.choice(["and", "or", "not"])
            f = {"o": o, "a": self.flt(t, depth - 1, inapp)}
            if o != "not": f["b"] = self.flt(t, depth - 1, inapp)
            return f
        fs = c.featsof(t)
        if p < .55:
            return {"o": "type", "t": r.choice([x for x in range(1, c.nt + 1) if c.subsumes(t, x) or c.subsumes(x, t)]), "sub": r.randint(0, 1)}
        path, cur = [], t
        while r.random() < .45 and len(path) < 3 and not inapp:
            refs = [f for f in c.featsof(cur) if c.facc(f) == "ref" and f != 15]
            if not refs: break
            f = r.choice(refs)
            path.append(f); cur = c.rng(f)
        if path and p < .68 and depth > 0:
            return {"o": "match", "p": path, "a": self.flt(cur, depth - 1, inapp)}
        leaf = [f for f in c.featsof(cur) if c.facc(f) in ("int", "float", "str")]
        if inapp and r.random() < .6: leaf = [f for f in range(1, c.nf + 1) if c.facc(f) in ("int", "float", "str") and f not in c.featsof(cur)]
        if not leaf:
            if path: return {"o": "match", "p": path, "a": {"o": "type", "t": r.choice(c.subtypes(cur)), "sub": r.randint(0, 1)}}
            return {"o": "type", "t": r.choice(c.subtypes(t)), "sub": r.randint(0, 1)}
        f = r.choice(leaf)
        k = c.facc(f)
        if k == "str":
            y = self.kv("str") or vals.TOK[""]
            return {"o": "str", "p": path + [f], "y": y, "val": vals.hexs(y)}
        y = self.kv(k) if f not in (16, 17) else r.randint(0, 8)
        return {"o": k, "p": path + [f], "c": r.choice(["eq", "gt", "lt"]), "y": y, "val": vals.enc(k, y)}
    def step_idx(self):
        c, r = self.cfg, self.rng
        W = self.weights
        a = r.choices(list(W), list(W.values()))[0]
        if a == "cur" and not self.its: a = "it"
        w = r.randint(1, self.nviews)
        x = r.choice(self.pool()) if self.home and r.random() < .98 else 0
        if a == "add": return self.newfs() if r.random() < .15 else self.add(w, x)
        if a == "rem":
            ins = [q for q in self.cnt if self.cnt[q]]
            if ins and r.random() < .75: w, x = r.choice(ins)
            return self.rem(w, x)
        if a == "touch":           # values that are not keys may change while indexed
            if not x: return None
            fs = [f for f in c.featsof(self.ty[x]) if f not in self.keyfeats and c.facc(f) != "ref" and f not in (16, 17)]
            if fs:
                if self.its: self.op(op="idrop"); self.its = []
                f = r.choice(fs); k = c.facc(f)
                y = r.choice(list(c.allowed(c.rng(f)))) if c.kind(c.rng(f)) == "strsub" else self.kv(k)
                return self.op(op="set", x=x, f=f, k=k, y=y, val=vals.enc(k, y))
            return None
        if a == "size":
            n, t = self.ixpick()
            if r.random() < .06: n, t = r.choice([(0, 0), (n, r.choice([q for q in range(1, c.nt + 1)]))])
            return self.op(op="size", w=w, n=n, t=t)
        if a == "valid":
            n, t = self.ixpick()
            if r.random() < .4: n, t = r.choice([(0, 0), (n, r.randint(1, c.nt))])
            if r.random() < .3: return self.op(op="ixtype", w=w, n=n)
            return self.op(op="validix", w=w, n=n, t=t)
        if a == "find":
            n, t = self.ixpick()
            if x and not c.subsumes(c.ix[n - 1][0], self.ty[x]): return None
            return self.op(op="find", w=w, n=n, t=t, x=x)
        if a == "it": return self.mkit(w)
        # a step of a live iterator
        i = r.randrange(len(self.its))
        I = self.its[i]
        ops = []
        fwd = I["k"] == "una"
        if I["cur"]: ops += ["inext"] * 5 + ["iget"] + ([] if fwd else ["iprev"] * 4 + ["ipeekn", "ipeekp"] * 2)
        ops += ["ifirst", "icopy"] + ([] if I["k"] == "una" else ["ilast"]) + ([] if fwd else ["irev"])
        if c.ix[I["n"] - 1][1] == "sorted" and I["k"] in ("plain", "anix", "tset", "filter") and I["w"] not in self.dups: ops += ["imoveto"] * 3
        if not I["cur"]: ops += ["ifirst"] * 3
        o = r.choice(ops)
        if o == "icopy" and len(self.its) > 6: return None
        e = dict(op=o, i=i + 1)
        if o == "imoveto":
            xs = [q for q in self.pool() if c.subsumes(c.ix[I["n"] - 1][0], self.ty[q])]
            if not xs: return None
            e["x"] = r.choice(xs)
        q = self.op(**e)
        if q is None or q["rt"] != "ok": return q
        if o == "icopy": self.its.append(dict(I))
        elif o in ("inext", "iprev", "ifirst", "ilast", "imoveto"): I["cur"] = q["rv"][0]
        return q
    # ------------------------------------------------ views, subjects, text (P11-P13)
    TEXTS = ["The quick brown fox jumps over the lazy dog.", "e\U00010348\U0001F600f", "a b c", "x\u0301y", "", "\u65e5\u672c\u8a9e", "abc", "line1\nline2", "Long " * 60]
    NAMES = ["viewA", "viewB", "viewC", "Z\u00fcrich", "_InitialView", "text"]
    MIMES = ["text", "text/plain", ""]
    def setup_view(self):
        self.nviews, self.its, self.cnt, self.dups, self.home, self.small = 1, [], {}, set(), {}, True
        self.texts = {}
        self.sofa_of = {}
        self.docview = {}
        self.prio()
        self.weights = self.VW
        self.kinds = dict(plain=3, anix=2)
    VW = dict(cv=8, gv=8, gvs=5, vn=4, data=9, sfs=6, gtext=6, guri=4, garr=4, gsofa=6, sofainfo=8, sofas=4, doc=5, lang=4, setlang=4,
              can=9, cov=8, pos=3, aview=6, fcov=3, cr=4, cra=3, set=5, get=5, add=9, rem=3, it=6, cur=4, size=4, dump=2, reset=1)
    def aspan(self, w):
        """a span inside the text of view w"""
        n = len(vals._units(vals.STR[self.texts[w]])) if self.texts.get(w) else 9
        b = self.rng.randint(0, n)
        return b, self.rng.randint(b, n)
    def step_view(self):
        c, r = self.cfg, self.rng
        a = r.choices(list(self.weights), list(self.weights.values()))[0]
        w = r.randint(1, self.nviews) if r.random() < .97 else self.nviews + 1
        sofas = list(self.sofa_of.values())
        anns = [x for x in self.home if c.subsumes(35, self.ty[x])]
        if a == "cv":
            if self.nviews > 4: return None
            y = vals.TOK[r.choice(self.NAMES)]
            o = self.op(op="cv", y=y, val=vals.hexs(y), w=w)
            if o and o["rt"] == "ok": self.nviews += 1; self.sofa_of[o["rv"][0]] = o["rv"][1]
            return o
        if a == "gv":
            y = vals.TOK[r.choice(self.NAMES)]
            return self.op(op="gv", y=y, val=vals.hexs(y), w=w)
        if a in ("gvs", "sofainfo", "sfs"):
            if not sofas: return None
            x = r.choice(sofas)
            if a != "sfs": return self.op(op=a, x=x)
            m = r.randint(0, 2)
            if m == 1: return self.op(op="sfs", x=x, m=1, y=self.h(lambda t: c.kind(t) in ARR, .1), val="n")
            y = vals.TOK[r.choice(self.TEXTS)]
            o = self.op(op="sfs", x=x, m=m, y=y, val=vals.hexs(y))
            if o and o["rt"] == "ok" and m == 0:
                self.its = []
                for q in self.sofa_of:
                    if self.sofa_of[q] == x: self.texts[q] = y
            return o
        if a == "data":
            k = r.choice(["dtext", "dtext", "sds", "sda", "sdu"])
            mt = vals.TOK[r.choice(self.MIMES)]
            if k == "sda":
                o = self.op(op="sda", w=w, x=self.h(lambda t: c.kind(t) in ARR, .05), m=mt, mime=vals.hexs(mt))
            else:
                y = vals.TOK[r.choice(self.TEXTS)]
                e = dict(op=k, w=w, y=y, val=vals.hexs(y))
                if k == "dtext": e["m"] = r.randint(0, 2)
                else: e["m"] = mt; e["mime"] = vals.hexs(mt)
                o = self.op(**e)
            if o and o["rt"] == "ok":
                ww = w if w <= self.nviews else 1
                self.sofa_of[ww] = o["rv"][0]
                if k in ("dtext", "sds"): self.texts[ww] = y; self.its = []
            return o
        if a in ("vn", "gtext", "guri", "garr", "sofas"): return self.op(op=a, w=w)
        if a == "gsofa":
            o = self.op(op=a, w=w)
            if o and o["rt"] == "ok" and o["rv"][0]: self.sofa_of[w if w <= self.nviews else 1] = o["rv"][0]
            return o
        if a == "doc":
            o = self.op(op="doc", w=w)
            if o and o["rt"] == "ok": self.docview[o["rv"][0]] = w if w <= self.nviews else 1
            return o
        docs = [x for x in range(1, len(self.ty)) if self.ty[x] and c.subsumes(36, self.ty[x])]
        if a in ("lang", "setlang"):
            if not docs: return None
            x = r.choice(docs) if r.random() < .95 else self.h()
            if a == "lang": return self.op(op=a, x=x)
            y = vals.TOK[r.choice(["", "en", "de-de", "xh"])]
            return self.op(op=a, x=x, y=y, val=vals.hexs(y))
        if a == "can":
            t = r.choice(c.subtypes(35)) if r.random() < .97 else 0
            b, e = self.aspan(w if w <= self.nviews else 1)
            o = self.op(op="can", w=w, t=t, b=b, e=e)
            if o and o["rt"] == "ok": self.home[o["rv"][0]] = w if w <= self.nviews else 1
            return o
        if a in ("cov", "pos", "aview", "fcov"):
            if not anns: return None
            x = r.choice(anns + docs) if a != "fcov" else r.choice(anns)
            if r.random() < .03 and a != "fcov": x = self.h()
            if a == "cov":
                v = self.home.get(x)
                # a span beyond the text that was set later is not covered by anything
                if v and self.texts.get(v) and x in anns:
                    o = self.op(op="pos", x=x)
                    if o["rt"] != "ok" or o["rv"][1] > len(vals._units(vals.STR[self.texts[v]])): return o
            if a == "fcov": return self.op(op="fcov", x=x, t=r.choice(c.subtypes(35)))
            return self.op(op=a, x=x)
        if a == "cr":
            o = self.op(op="cr", t=r.choice(self.goodtypes() + [1]), w=w)
            if o and o["rt"] == "ok": self.home[o["rv"][0]] = w if w <= self.nviews else 1
            return o
        if a == "cra": return self.op(op="cra", k=r.choice(KINDS), n=r.randint(0, 3), w=w)
        if a in ("set", "get"):
            x = self.h(lambda t: c.kind(t) == "fs", 0)
            if not x: return None
            fs = [f for f in c.featsof(self.ty[x]) if f not in (15, 16, 17, 18) and f not in self.keyfeats]
            if not fs: return None
            f = r.choice(fs); k = c.facc(f)
            if a == "get": return self.op(op="get", x=x, f=f, k=k)
            if k == "ref":
                rt = c.rng(f)
                y = self.h(lambda q: c.subsumes(rt, q), 0)
                if not y or c.subsumes(10, rt): return None
                return self.op(op="set", x=x, f=f, k="ref", y=y)
            y = self.val_for(f)
            if c.kind(c.rng(f)) == "strsub": y = r.choice(list(c.allowed(c.rng(f))))
            return self.op(op="set", x=x, f=f, k=k, y=y, val=vals.enc(k, y))
        if a == "dump": return self.op(op="dump")
        if a == "reset":
            o = self.op(op="reset", w=w)
            self.ty, self.nviews, self.its, self.cnt, self.dups, self.home, self.texts, self.sofa_of, self.docview = [0], 1, [], {}, set(), {}, {}, {}, {}
            return o
        w = min(w, self.nviews)
        if a in ("add", "rem"):
            if not self.home: return None
            # the end of a document annotation changes when its text is set: no other view may hold it before that
            fixed = [x for x in docs if self.texts.get(self.docview.get(x))]
            x = r.choice((self.pool() + fixed) or [0]) if r.random() < .98 else 0
            return self.add(w, x) if a == "add" else self.rem(w, x)
        if a == "size":
            n, t = self.ixpick()
            return self.op(op="size", w=w, n=n, t=t)
        if a == "it": return self.mkit(w)
        if a == "cur":
            if not self.its: return None
            i = r.randrange(len(self.its))
            if self.its[i]["cur"]:
                q = self.op(op=r.choice(["inext", "iprev"]), i=i + 1)
                if q and q["rt"] == "ok": self.its[i]["cur"] = q["rv"][0]
                return q
            return self.op(op="iget", i=i + 1)
        raise KeyError(a)

    # ------------------------------------------------ serialization (P14-P17)
    W_SER = dict(can=10, cr=8, cra=9, aset=10, crl=6, laddf=10, set=30, add=16, rem=2, data=6, cv=3, rt=4, lang=2, dump=1, it=3, size=2, find=1, cur=3, get=3, gsofa=2, link=20)
    def setup_ser(self):
        self.setup_view()
        self.kinds = dict(plain=3, anix=2)
        self.alen = {}
        for _ in range(self.rng.randint(0, 3)): self.step_ser("cv")
        for w in range(1, self.nviews + 1):
            if self.rng.random() < .7: self.step_ser("data")
    def reduced(self, e):
        """the part of the type system a component knows that the CAS passes through"""
        c, r = self.cfg, self.rng
        drop = set()
        for t in r.sample(range(37, c.nt + 1), r.randint(0, c.nt - 36)) if r.random() < .8 else ():
            if r.random() < .6: drop |= set(c.subtypes(t))
        fdrop = [f for f in range(19, c.nf + 1) if r.random() < .3] if r.random() < .7 else []
        e["red"] = c.reduced(self.r.dir, drop, fdrop)
        ts = [t for t in range(1, c.nt + 1) if t not in drop and (t == 1 or c.kind(t) == "fs" and not c.subsumes(34, t))]
        e["nt"] = r.choice(ts) if r.random() < .4 else 0
    def swapped(self, o):
        """the CAS is the loaded one now: everything in it has a handle, in the order of the graph"""
        g, c = o["graph"], self.cfg
        self.ty = [0] + [n[0] for n in g["nd"]]
        self.nviews = len(g["vs"])
        self.its, self.cnt, self.dups, self.alen = [], {}, set(), {}
        self.home, self.texts, self.sofa_of, self.docview = {}, {}, {}, {}
        for k, v in enumerate(g["vs"]):
            w = k + 1
            if v["sofa"]:
                self.sofa_of[w] = v["sofa"]
                t = vals.dec(g["nd"][v["sofa"] - 1][1 + c.featsof(33).index(13)])
                if t > 0: self.texts[w] = t
            if v["doc"]: self.docview[v["doc"]] = w
            for x in v["mem"]: self.cnt[w, x] = 1
        for x in range(1, len(self.ty)):
            t = self.ty[x]
            n = g["nd"][x - 1]
            if c.kind(t) in ARR: self.alen[x] = n[1]
            elif c.subsumes(35, t) and not c.subsumes(36, t):
                so = n[1 + c.featsof(t).index(15)]
                self.home[x] = ([w for w in self.sofa_of if self.sofa_of[w] == so] or [1])[0]
            elif c.kind(t) == "fs" or t in (1, 34): self.home[x] = 1
    def indexed_here(self, x): return any(self.cnt[q] for q in self.cnt if q[1] == x)
    def step_ser(self, a=None):
        c, r = self.cfg, self.rng
        if a is None: a = r.choices(list(self.sw), list(self.sw.values()))[0]
        w = r.randint(1, self.nviews)
        if a == "rt":
            for _ in range(r.randint(0, 6)): self.step_ser(r.choice(["link", "link", "add"]))
            e = dict(op="rt", fmt=r.choice(self.fmts), swap=int(r.random() < .5), dirty=int(r.random() < .3))
            if e["fmt"] == "def": e["swap"] = 0      # its types are those of another type system
            if e["fmt"] == "oots": self.reduced(e)
            o = self.op(**e)
            if o and o["rt"] == "ok" and e.get("nt"):
                x = len(self.ty)
                self.ty.append(e["nt"]); self.home[x] = 1; self.cnt[1, x] = 1; self.its = []
            if o and o["rt"] == "ok" and e["swap"]: self.swapped(o)
            return o
        if a == "cv":
            if self.nviews > 3: return None
            y = vals.TOK[r.choice(["viewA", "viewB", "viewC", "Z\u00fcrich", "text"])]
            o = self.op(op="cv", y=y, val=vals.hexs(y), w=1)
            if o and o["rt"] == "ok": self.nviews += 1; self.sofa_of[o["rv"][0]] = o["rv"][1]
            return o
        if a == "lang": a = r.choice(["doc", "setlang"])
        if a == "doc":
            if not self.texts.get(w): return None        # an unindexed document annotation is not transferred
            o = self.op(op="doc", w=w)
            if o and o["rt"] == "ok": self.docview[o["rv"][0]] = w
            return o
        if a == "data":
            k = r.choice(["dtext", "dtext", "sds", "sda", "sdu"])
            mt = vals.TOK[r.choice(self.MIMES)]
            if k == "sda":
                x = self.h(lambda t: c.kind(t) in ARR, 0)
                if not x: return None
                o = self.op(op="sda", w=w, x=x, m=mt, mime=vals.hexs(mt))
            else:
                y = vals.TOK[r.choice(self.TEXTS)]
                if k in ("dtext", "sds") and r.random() < .3: y = r.choice(vals.ANYSTR[1:])
                e = dict(op=k, w=w, y=y, val=vals.hexs(y))
                if k == "dtext": e["m"] = r.randint(0, 2)
                else: e["m"] = mt; e["mime"] = vals.hexs(mt)
                o = self.op(**e)
            if o and o["rt"] == "ok":
                self.sofa_of[w] = o["rv"][0]
                if k in ("dtext", "sds"): self.texts[w] = y; self.its = []
            return o
        if a == "can":
            t = r.choice([q for q in c.subtypes(35) if not c.subsumes(36, q)])
            b, e = self.aspan(w)
            o = self.op(op="can", w=w, t=t, b=b, e=e)
            if o and o["rt"] == "ok": self.home[o["rv"][0]] = w
            return o
        if a == "cr":
            ts = [t for t in self.goodtypes() + [1, 34] if not c.subsumes(36, t)]
            o = self.op(op="cr", t=r.choice(ts), w=w)
            if o and o["rt"] == "ok": self.home[o["rv"][0]] = w
            return o
        if a == "cra":
            k = r.choice(KINDS); n = r.choice([0, 1, 2, 2, 3, 4])
            o = self.op(op="cra", k=k, n=n, w=w)
            if o and o["rt"] == "ok":
                x = o["rv"][0]; self.alen[x] = n
                for i in range(n):
                    if r.random() < .8: self.aput(x, k, i)
            return o
        if a == "aset":
            x = self.h(lambda t: c.kind(t) in ARR, 0)
            if not x or not self.alen.get(x): return None
            return self.aput(x, ELEM[c.kind(self.ty[x])], r.randrange(self.alen[x]))
        if a == "crl": return self.op(op="crl", k=r.choice(["int", "float", "str", "ref"]))
        if a == "laddf":
            x = self.h(lambda t: c.subsumes(10, t) and t != 10, 0)
            if not x: return None
            k = {11: "ref", 14: "float", 17: "int", 20: "str"}[[b for b in (11, 14, 17, 20) if c.subsumes(b, self.ty[x])][0]]
            y = self.h(None, .15) if k == "ref" else self.v(k)
            o = self.op(op="laddf", x=x, k=k, y=y, val=y if k == "ref" else vals.enc(k, y))
            self.retype(x)
            if r.random() < .5 and o and o["rt"] == "ok":        # the rest of it again, as a list of its own
                self.op(op="ltail", x=x, k=k)
            return o
        if a in ("set", "link"):
            x = self.h(lambda t: c.kind(t) == "fs", 0)
            if a == "link":      # a structure an index holds refers to another one
                ins = [q[1] for q in self.cnt if self.cnt[q] and c.kind(self.ty[q[1]]) == "fs"]
                x = r.choice(ins) if ins else 0
            if not x: return None
            fs = [f for f in c.featsof(self.ty[x]) if f not in (15, 16, 17, 18) and (f not in self.keyfeats or not self.indexed_here(x))]
            if a == "link": fs = [f for f in fs if c.facc(f) == "ref"]
            if not fs: return None
            f = r.choice(fs); k = c.facc(f)
            if k == "ref":
                rt = c.rng(f)
                y = self.h(lambda q: c.subsumes(rt, q), 0)
                if not y and rt in (11, 14, 17, 20) and r.random() < .5:
                    o = self.op(op="crl", k={11: "ref", 14: "float", 17: "int", 20: "str"}[rt]); y = len(self.ty) - 1
                if not y and rt in (6, 7, 8, 9, 28, 29, 30, 31, 32): self.step_ser("cra"); y = self.h(lambda q: c.subsumes(rt, q), 0)
                if not y: return None
                return self.op(op="set", x=x, f=f, k="ref", y=y)
            y = self.val_for(f)
            if c.kind(c.rng(f)) == "strsub": y = r.choice(list(c.allowed(c.rng(f))))
            return self.op(op="set", x=x, f=f, k=k, y=y, val=vals.enc(k, y))
        if a == "add":
            docs = [x for x in self.docview if self.texts.get(self.docview[x])]
            other = [x for x in range(1, len(self.ty)) if c.kind(self.ty[x]) in ARR] if r.random() < .15 else []
            pool = self.pool() + other
            if not pool: return None
            x = r.choice(pool)
            if c.subsumes(35, self.ty[x]) and r.random() < .9: w = self.home.get(x, w)
            return self.add(w, x)
        if a == "rem":
            ins = [q for q in self.cnt if self.cnt[q] and q[1] not in self.docview]
            if not ins: return None
            return self.rem(*r.choice(ins))
        if a == "get":
            x = self.h(lambda t: c.kind(t) == "fs", 0)
            fs = [f for f in c.featsof(self.ty[x]) if f != 15] if x else []
            if not fs: return None
            f = r.choice(fs)
            return self.op(op="get", x=x, f=f, k=c.facc(f))
        if a == "find":
            if not self.home: return None
            x = r.choice(self.pool())
            n, t = self.ixpick()
            if not c.subsumes(c.ix[n - 1][0], self.ty[x]): return None
            return self.op(op="find", w=w, n=n, t=t, x=x)
        sv, self.weights = self.weights, {a: 1}
        try: return self.step_view()
        finally: self.weights = sv
    # ------------------------------------------------ streams (P24)
    URIS = ["mem:0123456789abcdefghij", "mem:0123456789abcdefghij", "m2:x", ":none", "nope:x", "file:/nowhere/x.txt", "text"]
    STW = dict(cv=5, data=14, arr=9, put=10, get=9, open=11, close=3, size=6, read=26, seek=12, ptr=5, del_=2, live=4, grow=3, gtext=1, dump=1, reset=1)
    def setup_stream(self):
        self.setup_view()
        self.sms = []                       # kinds of the streams, None when deleted
        self.stt = []                       # the unit of each
        self.arrs = {}
    def step_stream(self):
        r, c = self.rng, self.cfg
        a = r.choices(list(self.STW), list(self.STW.values()))[0]
        w = r.randint(1, self.nviews)
        if a in ("cv", "gtext", "dump", "reset"):
            sv, self.weights = self.weights, {a: 1}
            try: o = self.step_view()
            finally: self.weights = sv
            if a == "reset" and o and o["rt"] == "ok": self.sms, self.stt, self.arrs = [], [], {}
            return o
        if a == "arr":
            k = r.choice(KINDS)
            n = r.choice([0, 1, 2, 3, 5, 8])
            o = self.op(op="cra", k=k, n=n, w=w)
            if o and o["rt"] == "ok":
                self.arrs[o["rv"][0]] = (k, n)
                if k != "ref":
                    for i in range(n): o = self.aput1(max(self.arrs), k, i)
            return o
        if a == "put":
            xs = [x for x in self.arrs if self.arrs[x][1] and self.arrs[x][0] != "ref"]
            if not xs: return None
            x = r.choice(xs)
            return self.aput1(x, self.arrs[x][0], r.randint(0, self.arrs[x][1] - 1))
        if a == "data":
            k = r.choice(["dtext", "sds", "sda", "sda", "sdu", "sfs", "sfs"])
            mt = vals.TOK[r.choice(self.MIMES)]
            T = self.TEXTS + ["x\ud800y"]
            if k == "sfs":
                xs = list(self.sofa_of.values())
                if not xs: return None
                x, m = r.choice(xs), r.choice([0, 1, 1, 2])
                if m == 1:
                    y = r.choice(list(self.arrs)) if self.arrs else 0
                    return self.op(op="sfs", x=x, m=1, y=y, val="n")
                y = vals.TOK[r.choice(T if m == 0 else self.URIS)]
                return self.op(op="sfs", x=x, m=m, y=y, val=vals.hexs(y))
            if k == "sda":
                if not self.arrs: return None
                o = self.op(op="sda", w=w, x=r.choice(list(self.arrs)), m=mt, mime=vals.hexs(mt))
            else:
                y = vals.TOK[r.choice(self.URIS if k == "sdu" else T)]
                e = dict(op=k, w=w, y=y, val=vals.hexs(y))
                if k == "dtext": e["m"] = r.randint(0, 2)
                else: e["m"] = mt; e["mime"] = vals.hexs(mt)
                o = self.op(**e)
            if o and o["rt"] == "ok": self.sofa_of[w] = o["rv"][0]
            return o
        if a == "grow": return self.op(op="sgrow", w=w, n=r.choice([1, 20, 400, 400, 6000]))
        if a == "live": return self.op(op="slive")
        if a == "get":
            x = 0
            if r.random() < .5 and self.sofa_of: x = r.choice(list(self.sofa_of.values()))
            o = self.op(op="sget", w=w, x=x)
            if o and o["rt"] == "ok" and o["rv"][0]: self.sms.append(o["rv"][1])
            return o
        on = [i for i, k in enumerate(self.sms) if k]
        if not on: return None
        i = r.choice(on[-3:])
        if a == "open": return self.op(op="sopen", i=i + 1, n=r.choice([0, 0, 1, 100]))
        if a == "close": return self.op(op="sclose", i=i + 1)
        if a == "del_": self.sms[i] = None; return self.op(op="sdel", i=i + 1)
        if a == "ptr": return self.op(op="sptr", i=i + 1)
        o = self.op(op="ssize", i=i + 1)
        if a == "size" or not o: return o
        tot, av = o["rv"] if o["rt"] == "ok" else (8, 8)
        if a == "seek":
            t = r.choice([0, tot, r.randint(0, max(tot, 0)), r.choice([-1, 1, 1000000, -5]) + r.randint(0, max(tot, 0))])
            # mostly positions between whole elements
            if r.random() < .9: t -= t % 8 if tot % 8 == 0 else t % 4 if tot % 4 == 0 else 0
            g = r.choice([0, 1, 2]) if r.random() < .97 else 3
            loc = self.sms[i] == 1
            off = t if g in (0, 3) else t - (tot - av) if g == 1 else (tot - t if loc else t - tot)
            return self.op(op="sseek", i=i + 1, off=off, org=g)
        # no part of an element is left over
        es = r.choice([1, 1, 2, 4, 4, 8])
        n = r.choice([0, 1, 1, 2, 3, 1000]) if r.random() < .8 else r.randint(0, 40)
        if av > 0 and es * n > av and av % es: n = av // es
        if av > 0 and n == 0 and r.random() < .9: n = 1; es = 1
        return self.op(op="sread", i=i + 1, es=es, n=n)
    def aput1(self, x, k, i):
        y = self.v(k)
        return self.op(op="aset", x=x, k=k, i=i, y=y, val=vals.enc(k, y))
    def aput(self, x, k, i):
        y = self.h(None, .15) if k == "ref" else self.v(k)
        return self.op(op="aset", x=x, k=k, i=i, y=y, val=vals.enc(k, y) if k != "ref" else y)

    def mkit(self, w):
        c, r = self.cfg, self.rng
        if len(self.its) > 5: return None
        k = r.choices(list(self.kinds), list(self.kinds.values()))[0]
        n, t = self.ixpick(["sorted"] if k in ("una", "sub", "subu") else None)
        e = dict(op="it", k=k, w=w, n=n, t=t)
        if k in ("una", "sub", "subu"):
            # annotations only, in the order of the annotation index
            n = e["n"] = 1
            e["t"] = r.choice(c.subtypes(35))
            if r.random() < .15: e["t"] = 0
        if k == "anix":
            e["n"] = n = 1
            e["t"] = r.choice(c.subtypes(35)) if r.random() < .95 else r.choice([q for q in range(1, c.nt + 1) if not c.subsumes(35, q)])
        if k in ("sub", "subu"):
            if w in self.dups: return None
            xs = [q for q in self.pool() if c.subsumes(35, self.ty[q]) and self.home[q] == w]
            if not xs: return None
            e["x"] = r.choice(xs)
            if r.random() < .4:
                e["viaAnn"] = 1
                if e["t"] == 0: e["t"] = 35
        if k == "filter":
            inapp = r.random() < .08
            e["flt"] = self.flt(t or c.ix[n - 1][0], 2, inapp)
        if k == "tset":
            base = c.subtypes(t or c.ix[n - 1][0])
            e["ts"] = r.sample(base, r.randint(0, len(base)))
            if r.random() < .08: e["ts"].append(r.randint(1, c.nt))
            if len(base) == 1: e["ts"] = base
        if r.random() < .03: e["n"], e["t"] = (0, 0) if "viaAnn" not in e and k not in ("sub", "subu", "una", "anix", "filter", "tset") else (e["n"], e["t"])
        o = self.op(**e)
        if o and o["rt"] == "ok": self.its.append(dict(k=k, n=n, w=w, cur=(o["rv"] or [0])[0]))
        return o
