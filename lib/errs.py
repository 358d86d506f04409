"""Errors: configurations and histories."""
import json, os, random, re, subprocess
import vbuild
TP, NONE, NCLASS = [], 3, 12
def load():
    """the patterns of the messages, from the library"""
    if not TP: TP.extend(json.loads(subprocess.run([os.path.join(vbuild.BUILD, "opt", "errdrv"), "texts"], stdout=subprocess.PIPE, check=True).stdout))
    # a % that no number or % follows has no meaning
    return [i for i in range(1, len(TP)) if not re.search("%(?![0-9%])", "".join(map(chr, TP[i])).replace("%%", ""))]
class ECfg:
    def __init__(self, ids): self.ids = sorted(set(ids) | {NONE})
    def tla(self): return {"ids": self.ids, "tp": [TP[i] for i in self.ids], "none": NONE}
    def driver(self, d): return {}
def runs(s):
    r = []
    for c in s:
        if r and r[-2] == ord(c): r[-1] += 1
        else: r += [ord(c), 1]
    return r
LIM = dict(l=(-2**63, 2**63 - 1), ul=(0, 2**63 - 1), i=(-2**31, 2**31 - 1), ui=(0, 2**32 - 1))
def param(rng, kind=None):
    k = kind or rng.choice(["cs", "s", "uc", "u", "s", "u", "l", "ul", "i", "ui"])
    if k in LIM:
        lo, hi = LIM[k]
        n = rng.choice([lo, hi, 0, 1, hi - rng.randrange(5), rng.randrange(lo, hi + 1), rng.randrange(100)])
        return dict(k=k, n=str(n), t=runs(str(n)))
    s = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        c = rng.choice([65, 66, 37, 49, 63, 32, 10, 0xe4, 0x20ac, 0x1f600])
        n = rng.choice([1, 1, 2, 3, 100, 1000, 4000, 4090, 4095, 4096, 4097, 5000, 20000])
        if s and s[-2] == c: s[-1] += n
        else: s += [c, n]
    return dict(k=k, t=s, v=rng.randrange(2))
def rnd(rng):
    ids = load()
    with_params = [i for i in ids if 37 in TP[i]]
    two = [i for i in ids if TP[i].count(37) > 1]
    return ECfg([2] + [rng.choice(ids)] + [rng.choice(with_params) for _ in range(2)] + [rng.choice(two) for _ in range(2)])
class EG:
    W = dict(mk=10, vec=8, add=14, mcp=3, mrs=1, str=18, prm=8, idef=1, irs=1, icp=4, setm=4, seti=3, sets=3, ctx=7, get=8, imsg=5, ictx=6, istr=8, throw=10)
    W["in"] = 8
    def __init__(self, r, rng): self.r, self.rng, self.np = r, rng, [0] * 5
    def step(self):
        rng = self.rng
        op = rng.choices(list(self.W), list(self.W.values()))[0]
        e = dict(op=op)
        m, i, o = (rng.randrange(1, 5) for _ in range(3))
        if op in ("mk", "vec"):
            ps = [param(rng, "s" if op == "vec" else None) for _ in range(rng.choice([0, 1]) if op == "mk" else rng.randrange(4))]
            e.update(m=m, id=rng.choice(self.r.cfg.ids), ps=ps); self.np[m] = len(ps)
        elif op == "add":
            if self.np[m] > 12: return
            e.update(m=m, ps=[param(rng)]); self.np[m] += 1
        elif op == "mcp": e.update(m=m, o=o); self.np[m] = self.np[o]
        elif op in ("mrs", "str", "prm"):
            e["m"] = m
            if op == "mrs": self.np[m] = 0
        elif op == "in": e.update(i=i, m=m, id=rng.choice([0, 1, 37, 2001, 99999, 2147483647, 5]), sev=rng.randrange(2))
        elif op in ("idef", "irs", "get", "imsg", "istr"): e["i"] = i
        elif op == "icp": e.update(i=i, o=o)
        elif op == "setm": e.update(i=i, m=m)
        elif op == "seti": e.update(i=i, id=rng.choice([0, 1, 37, 2001, 5]))
        elif op == "sets": e.update(i=i, sev=rng.randrange(2))
        elif op == "ctx": e.update(i=i, m=m, sev=rng.randrange(2))
        elif op == "ictx": e.update(i=i, k=rng.randrange(5))
        elif op == "throw": e.update(i=i, m=m, c=rng.randrange(NCLASS), how=rng.randrange(4), o=o)
        self.r.op(**e)

def enumerated(quick):
    """every pattern with no, fewer, exactly as many and more parameters than it has, of lengths around what used to fit"""
    ids = load()
    P = lambda n, k: dict(k="s", t=[65 + k, n])
    def mk(i, n, l):
        ps = [P(l + k, k) for k in range(n)]
        return ECfg([i]), [dict(op="vec", m=1, id=i, ps=ps), dict(op="str", m=1), dict(op="prm", m=1)]
    yield "patterns", [lambda i=i, n=n, l=l: mk(i, n, l) for i in ids for n in range(5 if quick else 8) for l in ((1, 4096) if quick else (1, 2, 1000, 4000, 4096, 10000))], 1200 if quick else 9000, {}
