"""Matching the structures of a loaded CAS with those of the CAS it was written from.
A graph is what the driver's graph() returns: views with members, and nodes [type, values...]."""
import sys
INLINE = {6, 7, 8, 9, 28, 29, 30, 31, 32, 11, 14, 17, 20}
ARRT = {6, 7, 8, 9, 28, 29, 30, 31, 32}
TAILS = {2, 4, 6, 8}

def children(cfg, fmt, nd, own):
    """[(child, own copy?)] in order; the values that are not references"""
    t = nd[0]
    if t == 6: return [(x, False) for x in nd[2:]], (t, nd[1])
    if t in ARRT: return [], tuple(nd)
    ch, vs = [], [t]
    for f, x in zip(cfg.featsof(t), nd[1:]):
        if cfg.facc(f) == "ref":
            inl = fmt == "xmi" and f > 18 and not cfg.mr[f - 19] and cfg.rng(f) in INLINE
            ch.append((x, inl or own and f in TAILS))
        else: vs.append(x)
    return ch, tuple(vs)

class Match:
    def __init__(self, cfg, fmt, src, dst):
        self.cfg, self.fmt, self.s, self.d = cfg, fmt, src["nd"], dst["nd"]
        self.fuel = 20000
        # colours by the values alone (a null string and an empty one are told apart by the specification only)
        lab = lambda nd: (nd[0],) + tuple("s:" if x == "n" else x for x in children(cfg, "bin", nd, False)[1][1:])
        self.cs, self.cd = [lab(n) for n in self.s], [lab(n) for n in self.d]
        ids = {}
        cs = [ids.setdefault(x, len(ids)) for x in self.cs]
        cd = [ids.setdefault(x, len(ids)) for x in self.cd]
        kids = lambda nd: [x for x, o in children(cfg, "bin", nd, False)[0]]
        ks, kd = [kids(n) for n in self.s], [kids(n) for n in self.d]
        for _ in range(6):
            ids = {}
            sg = lambda c, k, i: (c[i],) + tuple(c[x - 1] if x else -1 for x in k[i])
            cs, cd = [ids.setdefault(sg(cs, ks, i), len(ids)) for i in range(len(cs))], [ids.setdefault(sg(cd, kd, i), len(ids)) for i in range(len(cd))]
        self.col_s, self.col_d = cs, cd
    def pair(self, a, b, fwd, bwd):
        """extends the matching by src node a ~ dst node b; False on conflict"""
        st = [(a, b, False)]
        while st:
            self.fuel -= 1
            if self.fuel < 0: return False
            a, b, own = st.pop()
            if (a == 0) != (b == 0): return False
            if a == 0: continue
            if own:
                if b in bwd: return False
                bwd[b] = (a, True)
            elif a in fwd:
                if fwd[a] != b: return False
                continue
            else:
                if b in bwd: return False
                fwd[a] = b; bwd[b] = (a, False)
            if self.cs[a - 1] != self.cd[b - 1]: return False
            ca, _ = children(self.cfg, self.fmt, self.s[a - 1], own)
            cb, _ = children(self.cfg, self.fmt, self.d[b - 1], own)
            if len(ca) != len(cb): return False
            for (x, o), (y, _) in zip(ca, cb): st.append((x, y, o))
        return True
    def solve(self, goals, fwd, bwd):
        """goals: [(dst node, [src candidates])]"""
        if not goals: return fwd
        b, cand = goals[0]
        good = [a for a in cand if self.col_s[a - 1] == self.col_d[b - 1]]
        for a in good + [a for a in cand if a not in good and self.cs[a - 1] == self.cd[b - 1]]:
            if self.fuel < 0: return None
            f2, b2 = dict(fwd), dict(bwd)
            if not self.pair(a, b, f2, b2): continue
            r = self.solve(goals[1:], f2, b2)
            if r is not None: return r
        return None

def observe(cfg, fmt, src, dst):
    """(obs, ost): for every view the handles of the source members in the order they have in dst"""
    sys.setrecursionlimit(10000)
    ost = [v["ix"] for v in dst["vs"]]
    if len(src["vs"]) != len(dst["vs"]): return [], ost
    m = Match(cfg, fmt, src, dst)
    fwd, bwd = {}, {}
    for a, b in zip(src["vs"], dst["vs"]): m.pair(a["sofa"], b["sofa"], fwd, bwd)
    goals = [(y, list(a["mem"])) for a, b in zip(src["vs"], dst["vs"]) for y in b["mem"]]
    f = m.solve(goals, fwd, bwd)
    obs = []
    for a, b in zip(src["vs"], dst["vs"]):
        if f is not None:
            back = {f[x]: x for x in a["mem"] if x in f}
            o = [back.get(y, 0) for y in b["mem"]]
        else:
            # no matching exists: propose one that agrees where it can
            left = list(a["mem"]); o = []
            for y in b["mem"]:
                c = ([x for x in left if m.col_s[x - 1] == m.col_d[y - 1]] or [x for x in left if m.cs[x - 1] == m.cd[y - 1]]
                     or [x for x in left if m.s[x - 1][0] == m.d[y - 1][0]] or left)
                if c: left.remove(c[0])
                o.append(c[0] if c else 0)
        obs.append([src["h"][x - 1] if x else 0 for x in o])
    return obs, ost

def flat(cfg, g):
    """the graph in the form of the specification's GraphOut"""
    out = [len(g["vs"])]
    for v in g["vs"]:
        out += [v["sofa"], v["doc"], len(v["mem"])] + v["mem"]
        for l in v["ix"]: out += [len(l)] + l
    for n in g["nd"]: out += n
    return out
