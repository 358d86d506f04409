"""Strings that refer to a part of a text: texts, and what is asked of the references into them."""
import itertools

A, BB, UP, Z, BL, FF, BEF, NUL = 0x61, 0x62, 0x41, 0x7a, 0x20, 0xff5e, 0xe9, 0
H1, L1, L2 = 0xd83d, 0xde00, 0xde01
class UCfg:
    def __init__(self, chars): self.txt = [u for c in chars for u in c]
    def tla(self): return {"txt": self.txt}
    def driver(self, d): return {"txt": self.txt}
CH = [[A], [BB], [UP], [BL], [FF], [BEF], [H1, L1], [H1, L2], [NUL]]
def pair(t, i): return 0 <= i < len(t) - 1 and 0xd800 <= t[i] < 0xdc00 <= t[i + 1] < 0xe000
def whole(t, s, l): return not pair(t, s - 1) and not pair(t, s + l - 1)

BIN = ["rel", "cmp", "cmps", "cmpss", "cpo", "cpos", "cposs", "fold", "folds", "foldss", "starts", "startss", "ends", "endss"]
FIND = ["ix", "ixs", "ixl", "ixss", "lix", "lixs", "lixl", "lixss"]
CHAR = ["ixc", "ixcs", "ixcl", "lixc", "lixcs", "lixcl"]
UNA = ["at", "at32", "start32", "limit32", "move", "ext", "extb", "cap", "utf8", "utf8s", "len", "trim", "split"]
CP = ("cpo", "cpos", "cposs", "fold", "folds", "foldss", "utf8", "utf8s")        # defined for well-formed strings
def ref(rng, t, w):
    while True:
        if rng.random() < .06: return [-1, 0]
        s = rng.randrange(len(t) + 1)
        l = rng.randrange(len(t) - s + 1)
        if not w or whole(t, s, l): return [s, l]
def units(t, r): return [] if r[0] < 0 else t[r[0]:r[0] + r[1]]
def step(rng, t):
    """one question"""
    op = rng.choice(rng.choice([BIN, BIN, FIND, CHAR, UNA]))
    w = op in CP
    a = ref(rng, t, w)
    b = ref(rng, t, w)
    if rng.random() < .35 and a[0] >= 0:                     # something that is, or nearly is, there
        s = rng.randrange(a[1] + 1)
        l = rng.choice([a[1] - s, min(1, a[1] - s), rng.randrange(a[1] - s + 1)])
        s, l = a[0] + s, l + rng.choice([0, 0, 0, 1])
        s -= rng.choice([0, 0, 0, 1])
        if s >= 0 and s + l <= len(t) and (not w or whole(t, s, l)): b = [s, l]
    n, m = a[1], b[1]
    # offsets inside of the string, at its ends, and outside
    s = rng.choice([0, 0, rng.randrange(n + 1), rng.randrange(n + 1), n, n + 1, n + 3, -1, -2])
    l = rng.choice([n, max(0, n - s), rng.randrange(n + 2), rng.randrange(n + 2), n + 4, 0, -1])
    while True:
        ss = rng.randrange(m + 1)
        sl = rng.randrange(m - ss + 1)
        if not w or whole(units(t, b), ss, sl): break
    e = dict(op=op, a=a, b=b, s=s, l=l, ss=ss, sl=sl, v=rng.randrange(4), u=rng.choice(CH))
    if w:
        p = max(0, min(s, n)); q = max(0, min(l, n - p))
        if a[0] >= 0 and not whole(units(t, a), p, q): e["s"], e["l"] = 0, n
    if op in CHAR and a[0] < 0: e["a"] = [0, 0]
    if b[0] < 0 and op in ("cmpss", "cposs", "foldss", "startss", "endss", "ixss", "lixss"): e["b"] = [0, 0]
    if op == "cap": e["l"] = max(0, l)
    if op == "at" and a[0] < 0: e["a"] = [0, 0]
    if op == "split":
        e["b"] = rng.choice([[i, 1] for i in range(len(t)) if t[i]] or [[0, 0]])
        e["s"], e["l"] = rng.randrange(2), rng.randrange(2)
        if a[0] < 0 or e["b"][1] == 0: e["a"] = [0, 0]
    if op in ("move",): e["l"] = rng.choice([-2, -1, 0, 1, 2, 9])
    return e
class UG:
    def __init__(self, r, rng): self.r, self.rng = r, rng
    def step(self): self.r.op(**step(self.rng, self.r.cfg.txt))
def rnd(rng):
    k = rng.choice([2, 2, 3, 9])
    al = rng.sample(CH[:8], min(k, 8)) + ([[NUL]] if rng.random() < .25 else [])
    return UCfg([rng.choice(al) for _ in range(rng.choice([1, 3, 4, 5, 6, 7, 9, 12]))])

def enumerated(quick):
    """every text of five units of two characters, and every pair of references into it, with every plain question"""
    def mk(chars):
        c = UCfg(chars)
        t = c.txt
        rs = [[s, l] for s in range(len(t) + 1) for l in range(len(t) - s + 1) if whole(t, s, l)]
        z = dict(s=0, l=0, ss=0, sl=0, u=[A])
        ops = [dict(z, op=op, a=a, b=b, v=v) for a in rs for b in rs for op, v in (("rel", 0), ("cmp", 1), ("cpo", 0), ("starts", 0), ("ends", 1), ("ix", 0), ("lix", 0))]
        return c, ops
    l = []
    for al in ([[A], [BB]], [[A], [H1, L1]], [[FF], [H1, L1]], [[A], [NUL]]):
        for n in (1, 2, 3):
            l += [lambda x=x: mk(x) for x in itertools.product(al, repeat=n)]
    yield "all", l, 60 if quick else 2000, {}
