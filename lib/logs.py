"""Logging: configurations and histories."""
import os
import mc
class LCfg:
    nf, nl = 5, 3
    def tla(self): return {"nf": self.nf, "nl": self.nl, "unspec": UNSPEC}
    def driver(self, d): return {"nf": self.nf, "nl": self.nl, "file": os.path.join(d, "log")}
UNSPEC = 10021
class LG:
    W = dict(lv=4, glv=1, reg=6, unreg=4, new=8, log=16, loge=6, st=9, more=7, err=10, errs=6, par=3)
    W["del"] = 3
    def __init__(self, r, rng): self.r, self.rng, self.alive, self.open, self.lg, self.n = r, rng, {1}, set(), [], 0
    def piece(self): self.n += 1; return self.n
    def pieces(self): return [self.piece() for _ in range(self.rng.choice([1, 1, 2, 3]))]
    def step(self):
        rng, r = self.rng, self.r
        op = rng.choices(list(self.W), list(self.W.values()))[0]
        e = dict(op=op)
        f = e["f"] = rng.choice(sorted(self.alive))
        if op == "lv": e["l"] = rng.randrange(3)
        elif op in ("reg", "unreg"):
            e["lo"] = rng.randrange(1, r.cfg.nl + 1)
            if op == "reg": self.lg.append(e["lo"])
            elif e["lo"] in self.lg: self.lg.remove(e["lo"])
        elif op == "new":
            free = [x for x in range(2, r.cfg.nf + 1) if x not in self.alive]
            if not free: return
            f = e["f"] = rng.choice(free)
            e.update(n=rng.randrange(1, 5), l=rng.choice([-1, -1, -1, 0, 1, 2]))
            self.alive.add(f)
        elif op == "del":
            if f == 1: return
            self.alive.discard(f); self.open.discard(f)
        elif op == "log": e.update(y=rng.choice([0, 1, 2, 2]), k=rng.randrange(3), m=self.pieces(), c=rng.choice([0, 0, 1, 7, 2147483647, -3]))
        elif op == "loge": e.update(y=rng.choice([1, 2]), id=rng.choice([0, 3, 99, UNSPEC + 1]), m=self.pieces())
        elif op in ("st", "more"):
            if op == "more" and f not in self.open: return
            e.update(y=rng.randrange(3), m=self.pieces() if rng.random() < .9 else [], fl=rng.choice([0, 0, 1, 1, 2]))
            self.open.add(f)
        elif op == "par":
            if len(set(self.lg)) != len(self.lg): return
            ths = []
            for _ in range(rng.choice([2, 3, 4])):
                ths.append(dict(f=rng.choice(sorted(self.alive)), ms=[[rng.choice([0, 1]), self.piece(), rng.choice([0, 5])] for _ in range(rng.randrange(1, 6))]))
            e["ths"] = ths
        r.op(**e)

def space(quick):
    """every short history of two facilities and two loggers"""
    c = LCfg()
    al = [dict(op="lv", l=1), dict(op="lv", l=2), dict(op="reg", lo=1), dict(op="reg", lo=3), dict(op="unreg", lo=1)]
    al += [dict(op="new", f=2, n=1, l=-1), dict(op="new", f=3, n=2, l=0), dict(op="del", f=2)]
    for f in (2, 3):
        al += [dict(op="log", f=f, y=2, k=0, m=[1], c=0), dict(op="loge", f=f, y=1, id=9, m=[2]), dict(op="st", f=f, y=0, m=[3], fl=0), dict(op="st", f=f, y=2, m=[4], fl=1),
               dict(op="more", f=f, m=[5], fl=2), dict(op="err", f=f), dict(op="errs", f=f)]
    al.append(dict(op="log", f=1, y=0, k=1, m=[6], c=3))
    obs = [dict(op="log", f=f, y=1, k=2, m=[7], c=1) for f in (1, 2, 3)] + [dict(op=o, f=f) for f in (2, 3) for o in ("err", "errs")] + [dict(op="more", f=f, m=[8], fl=1) for f in (2, 3)]
    pre = [dict(op="new", f=2, n=3, l=1), dict(op="reg", lo=3)]
    yield "log", mc.Space(c, pre, al, obs, 4 if quick else 5, mod="Log", inv="LogOK(XC, s)", exe="logdrv", templ="templ_log.tla", tinv="LogOK(Cfgs[Hist[h].c], s)"), 6000 if quick else 30000
