"""Exhaustive exploration: TLC visits every state a set of operations reaches in the specification (within a number of steps) and
every transition between them; each transition, with the way to it and all that can be observed after it, is executed on the library."""
import os, json, random, re, concurrent.futures
import vlib, vals
from vlib import Rec, workdir, SPEC, SEED
from cfg import *

STRIP = ("val", "vals", "mime", "red", "redspec", "name", "path", "group")
def clean(e):
    o = {k: v for k, v in e.items() if k not in STRIP}
    if "flt" in o: o["flt"] = vlib.strip_flt(o["flt"])
    if "scr" in o: o["scr"] = [dict(x, acts=[{"k": a["k"], "n": a["n"]} for a in x["acts"]]) for x in o["scr"]]
    if o["op"] in ("pget", "inx"): o["rv"] = []
    return o

class Space:
    """pre: what comes before; alpha: the operations explored; obs: what is asked after each transition.
    An operation's guard g holds of the state it is tried in."""
    def __init__(self, cfg, pre, alpha, obs, depth, mod="CasMC", inv="TRUE", exe="casdrv", templ="templ_trace.tla", tinv="TRUE", each=False, tail=0):
        self.cfg, self.pre, self.alpha, self.obs, self.depth = cfg, pre, alpha, obs, depth
        self.mod, self.inv, self.exe, self.templ, self.tinv, self.each, self.tail = mod, inv, exe, templ, tinv, each, tail

def g(e, h=0, hm=99, i=0, im=99, v=0, vm=99, q=()):
    """the operation with its guard: at least h handles and fewer than hm, the same for iterators and views, and conditions q"""
    return dict(e, g={"h": h, "hm": hm, "i": i, "im": im, "v": v, "vm": vm, "q": list(q)})
def bare(e): return {k: v for k, v in e.items() if k != "g"}

def graph(sp, d, pre, timeout):
    """runs TLC; the transitions as (path, observations), and the number of states"""
    def nd(n, l):
        with open(os.path.join(d, n), "w") as f:
            for x in l: f.write(json.dumps(x) + "\n")
    nd("alpha.ndjson", map(clean, sp.alpha)); nd("obs.ndjson", map(clean, sp.obs)); nd("cfg.ndjson", [sp.cfg.tla()])
    nd("pre.ndjson", [{k: v for k, v in o.items() if k not in ("raw", "_e", "graph")} for o in pre])
    t = open(os.path.join(SPEC, "templ_mc.tla")).read().replace("@EXT@", sp.mod).replace("@INV@", sp.inv)
    open(os.path.join(d, "Explore.tla"), "w").write(t)
    rc, out = vlib.tlc(d, "Explore", "CONSTANTS XDepth = %d XTail = %d\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (sp.depth, sp.tail), workers=1, heap="2500m", timeout=timeout, partial=True)
    if rc: return None, out
    tr = [(tuple(map(int, a.split(","))), tuple(int(x) for x in b.split(",") if x.strip()))
          for a, b in re.findall(r'"T<<([\d, ]+)>>#<<([\d, ]*)>>"', out)]
    if rc is None: return tr, (len(tr), 0)
    gen, dist = vlib.states(out)
    if len(tr) != gen - 1: raise vlib.Broken("TLC: %d transitions shown, %d generated" % (len(tr), gen - 1))
    return tr, (gen, dist)

class Pool:
    """which CAS a pool hands out is left to the library: an operation on one that it did not is left out"""
    def __init__(self): self.used, self.seen = {}, {}
    def legal(self, e):
        k, x = e.get("k"), e.get("x")
        if e["op"] in ("pview", "ptext", "plen", "pviews"): return x in self.used.get(k, ())
        if e["op"] == "prel": return x <= self.seen.get(k, 0)
        if e["op"] == "prelo": return x <= self.seen.get(e["o"], 0)
        return True
    def after(self, o):
        k = o.get("k", 1)
        if o["op"] in ("pget", "inx") and o["rt"] == "ok":
            self.used.setdefault(k, set()).add(o["rv"][0])
            self.seen[k] = max(self.seen.get(k, 0), o["rv"][0])
        if o["op"] == "prel" and o["rt"] == "ok": self.used.get(k, set()).discard(o["x"])

def explore(rep, tier, spaces, run, cap=1.0):
    """spaces: (name, Space, how many of the transitions are executed at most); run(name, jobs, fn, cfgs) records and checks the histories"""
    lim = 150 if tier == "quick" else 300
    cfgs, hs, errs = [], [], []
    def one(q):
        try:
            name, sp, n = q
            d = workdir("%s-mc-%s" % (rep.pid, name))
            drv = vlib.Driver(sp.exe)                        # the beginning, as the library does it
            try:
                r = Rec(drv, sp.cfg, 0, d)
                if r.opened["t"] == "ok":
                    for e in sp.pre: r.op(**bare(e))
            finally: drv.close()
            if r.opened["t"] != "ok" or r.dead: return name, sp, n, [((), ())], (0, 0)
            tr, st = graph(sp, d, r.ops, lim)
            if tr is None: raise vlib.Broken("exploring %s: TLC finds an error in the specification\n%s" % (name, st[-3000:]))
            return name, sp, n, tr, st
        except Exception:
            import traceback
            errs.append(traceback.format_exc())
    with concurrent.futures.ThreadPoolExecutor(4) as ex: done = list(ex.map(one, spaces))
    if errs: raise vlib.Broken(errs[0])
    for name, sp, n, tr, st in done:
        rep.addmodel(*st)
        if st[0] and not st[1]: note = "exploration %s: %d operations, %d transitions before the time was up" % (name, len(sp.alpha), len(tr))
        else: note = "exploration %s: %d steps, %d operations, %d states, %d transitions" % (name, sp.depth, len(sp.alpha), st[1], len(tr))
        n = int(n * cap)
        if len(tr) > n:
            random.Random(SEED).shuffle(tr)
            tr = tr[:n]
            note += ", %d of them executed on the library" % n
        else: note += ", all executed on the library"
        rep.notes.append(note)
        cfgs.append(sp.cfg)
        for path, seen in tr:
            if sp.each: hs += [(len(cfgs), sp, path, (j,)) for j in seen] or [(len(cfgs), sp, path, ())]
            else: hs.append((len(cfgs), sp, path, seen))
    CH = 64
    def fn(drv, job, d):
        out = []
        for c, sp, path, seen in job:
            r = Rec(drv, sp.cfg, c - 1, d)
            if r.opened["t"] != "ok": return out + [{"c": c, "ops": [], "failed": r.opened}]
            po = Pool() if sp.mod == "EngMC" else None
            for e in list(sp.pre) + [sp.alpha[k - 1] for k in path] + [sp.obs[k - 1] for k in seen]:
                e = bare(e)
                if "redspec" in e: e["red"] = sp.cfg.reduced(d, *e.pop("redspec"))
                if not r.dead and (po is None or po.legal(e)): r.op(**e)
                if po and not r.dead and r.ops: po.after(r.ops[-1])
            out.append({"c": c, "ops": r.ops})
        return out
    run("%s-mc" % rep.pid, [hs[i:i + CH] for i in range(0, len(hs), CH)], fn, cfgs)

def enumerated(rep, spaces, run):
    """spaces: (name, [configuration with its operations], how many of them at most, what run needs)"""
    for name, l, n, kw in spaces:
        note = "%s: %d configurations" % (name, len(l))
        if len(l) > n:
            l = random.Random(SEED).sample(l, n)
            note += ", %d of them executed on the library" % n
        rep.notes.append(note)
        l = [x() for x in l]
        cfgs = [x[0] for x in l]
        def fn(drv, job, d):
            out = []
            for i in job:
                r = Rec(drv, cfgs[i], i, d)
                if r.opened["t"] != "ok": return out + [{"c": i + 1, "ops": [], "failed": r.opened}]
                ops = l[i][1]
                if isinstance(ops, dict):        # a type system, and what is asked of it if there is one
                    o = r.op(**dict(ops, file=cfgs[i].files(d, ops["file"])))
                    ops = l[i][2] if o["rt"] == "ok" and o["rv"] == [0] else []
                for e in ops:
                    if not r.dead: r.op(**e)
                out.append({"c": i + 1, "ops": r.ops})
            return out
        CH = 8
        run("%s-%s" % (rep.pid, name), [list(range(i, min(i + CH, len(l)))) for i in range(0, len(l), CH)], fn, cfgs, **kw)
