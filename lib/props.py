"""What is explored for each property."""
import os, random, time
import vbuild, vlib, vals, gen, eng, par, ts, mc, spaces, engspaces, ustr, logs, decl, errs
from cfg import *
from vlib import Rec, check_traces, record, workdir, SEED, describe

def opened(rep, name, hists, cfgs, d, exe):
    """every generated configuration is legal: one the library cannot set up (or dies of) violates the property under check"""
    bad = [h for h in hists if "failed" in h]
    if bad:
        h = bad[0]
        rep.violation("%s: the library fails to set up a legal configuration: %s (%d histories)" % (name, [h["failed"]["t"]] + list(h["failed"].get("v") or []), len(bad)),
                      {"exe": exe, "open": {"cfg": cfgs[h["c"] - 1].driver(d)}, "cfg": cfgs[h["c"] - 1].tla(), "ops": [], "answers": [], "library": h["failed"], "specification": "ok"})
    return [h for h in hists if "failed" not in h]

def casrun(rep, name, jobs, fn, cfgs, san=False, inv="TRUE", want=None):
    """records histories with fn(driver, job, cfgdir) and checks them against Cas.tla"""
    d = workdir(name)
    hists = opened(rep, name, record(jobs, lambda drv, j: fn(drv, j, d), san=san), cfgs, d, "casdrv")
    for h in hists: rep.cov["operations_executed"] += len(h["ops"])
    bads, st = check_traces(hists, cfgs, d, inv=inv)
    rep.add(st)
    rep.sample(hists)
    groups = {}
    for hi, oi, exp in bads:
        h = hists[hi]
        c = cfgs[h["c"] - 1]
        o = h["ops"][oi]
        key = (o["op"], o.get("k"), o["rt"], exp["t"])
        groups.setdefault(key, []).append((oi, h, o, c, exp))
    for key, l in sorted(groups.items(), key=str):
        oi, h, o, c, exp = min(l, key=lambda q: q[0])
        rep.violation("%s: %s (%d histories)" % (name, describe(h, oi, exp, c), len(l)),
                      {"open": {"cfg": c.driver(d)}, "cfg": c.tla(), "types": [c.tname(t) for t in range(1, c.nt + 1)], "features": [c.fname(f) for f in range(1, c.nf + 1)],
                       "ops": [p["_e"] for p in h["ops"][:oi + 1]], "answers": [[p["rt"]] + p["raw"] for p in h["ops"][:oi + 1]],
                       "library": [o["rt"]] + o["raw"], "specification": exp})
    return hists

def randhist(cfgs, step, nops, setup=None):
    def fn(drv, job, d):
        seed, ci = job
        rng = random.Random(seed)
        c = cfgs[ci]
        r = Rec(drv, c, ci, d)
        if r.opened["t"] != "ok": return [{"c": ci + 1, "ops": [], "failed": r.opened}]
        g = gen.G(r, rng)
        if setup: setup(g)
        k = 0
        while len(r.ops) < nops and not r.dead and k < nops * 4:
            k += 1
            step(g)
        return [{"c": ci + 1, "ops": r.ops}]
    return fn

BUDGET = 560          # seconds a thorough check explores
def rounds(tier, share=1):
    """the seeds of the rounds of histories: one in the quick tier, as many as time (or a share of it) allows in the thorough one"""
    k = 0
    while k == 0 or tier == "thorough" and time.time() - vlib.START < BUDGET * share:
        yield SEED * 1000003 + k * 7919
        k += 1

def rnd_check(rep, tier, mkcfgs, step, n, nops, setup=None, share=1):
    q = tier == "quick"
    for k, seed in enumerate(rounds(tier, share)):
        cfgs = mkcfgs(random.Random(seed), q)
        jobs = [(seed * 1009 + i, i % len(cfgs)) for i in range(n)]
        casrun(rep, "%s-rnd" % rep.pid, jobs, randhist(cfgs, step, nops if q or k % 2 == 0 else nops * 2, setup), cfgs)
        if rep.viol: break

def p_heap(rep, tier, step, nq, nops=60):
    heap = heapcfg()
    rnd_check(rep, tier, lambda rng, q: [c for _ in range(6 if q else 12) for c in (heap, rndcfg(rng))], step, nq, nops)

def explored(rep, tier):
    """the small spaces of the property, exhaustively"""
    vbuild.build(["casdrv", "memhandler.so"])
    mc.explore(rep, tier, list(getattr(spaces, rep.pid)(tier == "quick")), lambda name, jobs, fn, cfgs: casrun(rep, name, jobs, fn, cfgs))
    return not rep.viol

def nul_probe(rep):
    """the recorded finding: a string holding U+0000 (no generated string holds one)"""
    if not [k for k in vlib.known() if k["status"] == "known" and k.get("id") == "nul"]: return
    c = heapcfg()
    f = [f for f in range(1, c.nf + 1) if c.rng(f) == 4 and c.dom(f) >= 37][0]
    drv = vlib.Driver()
    r = Rec(drv, c, 0, workdir("P03-nul"))
    val = "s:006100000062"
    for e in [dict(op="cr", t=c.dom(f), w=1), dict(op="set", x=1, f=f, k="str", y=-1, val=val), dict(op="get", x=1, f=f, k="str")]: o = r.op(**e)
    drv.close()
    if o["raw"] == ["s:0061"]:
        print("KNOWN-FINDING: property=P03 a string containing U+0000 written to a feature reads back cut off at that character")
    elif o["raw"] != [val]:
        rep.violation("P03: the string 'a' U+0000 'b' reads back as %r" % o["raw"], {"ops": r.ops})
def P03(rep, tier):
    vbuild.build(["casdrv"])
    nul_probe(rep)
    if explored(rep, tier): p_heap(rep, tier, gen.G.step_feat, 1500)
def P04(rep, tier):
    if explored(rep, tier): p_heap(rep, tier, gen.G.step_arr, 1200)
def P05(rep, tier):
    if explored(rep, tier): p_heap(rep, tier, gen.G.step_list, 1200)


IXW = {
    "P06": (dict(add=30, rem=14, it=14, cur=6, size=14, find=10, valid=5, touch=4), dict(plain=5, anix=2, tset=2)),
    "P07": (dict(add=30, rem=8, it=30, cur=12, size=2, find=4, valid=1, touch=4), dict(plain=6, anix=2, tset=2, filter=1)),
    "P08": (dict(add=14, rem=5, it=12, cur=70, size=1, find=1, valid=1, touch=2), dict(plain=5, anix=3, tset=3, filter=3, sub=2)),
    "P09": (dict(add=26, rem=6, it=30, cur=34, size=1, find=1, valid=0, touch=1), dict(sub=6, subu=5, una=3)),
    "P10": (dict(add=26, rem=6, it=40, cur=10, size=1, find=1, valid=0, touch=14), dict(filter=1)),
}
def p_index(rep, tier, nq, nops=70):
    if not explored(rep, tier): return
    def setup(g):
        g.weights, g.kinds = IXW[rep.pid]
        g.setup_idx()
    rnd_check(rep, tier, lambda rng, q: [rndcfg(rng) for _ in range(40)], gen.G.step_idx, nq, 60 + nops, setup)
def P06(rep, tier): p_index(rep, tier, 900)
def P07(rep, tier): p_index(rep, tier, 900)
def P08(rep, tier): p_index(rep, tier, 900)
def P09(rep, tier): p_index(rep, tier, 900)
def P10(rep, tier): p_index(rep, tier, 900)

VW12 = dict(cv=4, data=9, sfs=3, gtext=7, gsofa=3, doc=9, lang=7, setlang=7, can=20, cov=24, pos=4, aview=9, fcov=7, set=2, get=3,
            add=14, rem=3, it=9, cur=4, size=3, gv=1, reset=1)
VW13 = dict(gen.G.VW, reset=5, can=14, add=14, data=12)
def p_view(rep, tier, nq, weights, nops=80):
    if not explored(rep, tier): return
    def setup(g):
        g.setup_view()
        g.weights = weights
    rnd_check(rep, tier, lambda rng, q: [rndcfg(rng) for _ in range(24)], gen.G.step_view, nq, nops, setup)
def P11(rep, tier): p_view(rep, tier, 900, gen.G.VW)
def P12(rep, tier): p_view(rep, tier, 900, VW12)
def P13(rep, tier): p_view(rep, tier, 900, VW13, 120)

SERW = gen.G.W_SER
def p_ser(rep, tier, nq, fmts, nops=110):
    if not explored(rep, tier): return
    def setup(g):
        g.sw, g.fmts = SERW, fmts
        g.setup_ser()
    def step(g): return g.step_ser()
    def tail(g):
        if not g.r.dead: g.op(op="rt", fmt=g.rng.choice(fmts), swap=0, dirty=0)
    rnd_check(rep, tier, lambda rng, q: [sercfg(rng) for _ in range(24)], step, nq, nops, setup)
def P24(rep, tier):
    """streams over the data of subjects"""
    if not explored(rep, tier): return
    rnd_check(rep, tier, lambda rng, q: [rndcfg(rng) for _ in range(24)], gen.G.step_stream, 900, 110, gen.G.setup_stream)
def P14(rep, tier): p_ser(rep, tier, 500, ["xmi"])
def P15(rep, tier): p_ser(rep, tier, 400, ["oots"])
def P16(rep, tier): p_ser(rep, tier, 500, ["xcas"])
def P17(rep, tier): p_ser(rep, tier, 500, ["bin", "bin", "blob", "blob", "def", "swab"])

# ------------------------------------------------------------------ analysis engines
def engrun(rep, name, jobs, fn, cfgs, templ="templ_eng.tla", inv="TRUE", exe="engdrv"):
    d = workdir(name)
    hists = opened(rep, name, record(jobs, lambda drv, j: fn(drv, j, d), exe=exe), cfgs, d, exe)
    for h in hists: rep.cov["operations_executed"] += len(h["ops"])
    bads, st = check_traces(hists, cfgs, d, templ=templ, inv=inv)
    rep.add(st)
    rep.sample(hists)
    groups = {}
    for hi, oi, exp in bads:
        h = hists[hi]
        o = h["ops"][oi]
        groups.setdefault((o["op"], o["rt"], exp["t"], str(o["rv"][:1]), str(exp["v"][:1])), []).append((oi, h, o, cfgs[h["c"] - 1], exp))
    for key, l in sorted(groups.items(), key=str):
        oi, h, o, c, exp = min(l, key=lambda q: q[0])
        rep.violation("%s: %s (%d histories)" % (name, describe(h, oi, exp, c), len(l)),
                      {"exe": exe, "open": {"cfg": c.driver(d)}, "cfg": c.tla(), "descriptor": open(c.files(d)).read() if exe == "engdrv" else "",
                       "ops": [p["_e"] for p in h["ops"][:oi + 1]], "answers": [[p["rt"]] + p["raw"] for p in h["ops"][:oi + 1]],
                       "library": [o["rt"]] + o["raw"], "specification": exp})
    return hists

def enghist(cfgs, nops, mk):
    def fn(drv, job, d):
        seed, ci = job
        rng = random.Random(seed)
        r = Rec(drv, cfgs[ci], ci, d)
        if r.opened["t"] != "ok": return [{"c": ci + 1, "ops": [], "failed": r.opened}]
        r.stop = False
        g = mk(r, rng)
        k = 0
        while len(r.ops) < nops and not r.dead and not r.stop and k < nops * 6:
            k += 1
            g.step()
        return [{"c": ci + 1, "ops": r.ops}]
    return fn

def engexplored(rep, tier, kind="mc"):
    """the small spaces of the property, exhaustively"""
    vbuild.build(["engdrv", "tsdrv", "traceann.so"])
    sp = list(getattr(engspaces, rep.pid)(tier == "quick"))
    if kind == "mc":
        kw = dict(templ=sp[0][1].templ, inv=sp[0][1].tinv, exe=sp[0][1].exe)
        mc.explore(rep, tier, sp, lambda name, jobs, fn, cfgs: engrun(rep, name, jobs, fn, cfgs, **kw))
    else: mc.enumerated(rep, sp, lambda name, jobs, fn, cfgs, **kw: engrun(rep, name, jobs, fn, cfgs, **kw))
    return not rep.viol

def eng_check(rep, tier, mkcfg, n, per, nops, mk, name="rnd", share=1, **kw):
    vbuild.build([kw.get("exe", "engdrv"), "traceann.so"])
    for k, seed in enumerate(rounds(tier, share)):
        rng = random.Random(seed)
        cfgs = [mkcfg(rng) for _ in range(n)]
        jobs = [(seed * 1009 + i, i % n) for i in range(n * per)]
        engrun(rep, "%s-%s" % (rep.pid, name), jobs, enghist(cfgs, nops, mk), cfgs, **kw)
        if rep.viol: break

def P18(rep, tier):
    if not engexplored(rep, tier): return
    eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=.5, bad=.12, sofa=.1, maps=.1, cap=.3, dllbad=.08), 300, 8, 40,
              lambda r, rng: eng.EG(r, rng, .6, dict(create=3, proc=6, mkview=1, setlang=1, views=1, reconf=6, batch=6, coll=6, destroy=4, delete=3, init=3, isinit=4)))
def P19(rep, tier):
    if not engexplored(rep, tier): return
    eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=1, bad=.04, sofa=.3, maps=.3, cap=.15), 300, 8, 40, lambda r, rng: eng.EG(r, rng, .4))
def P20(rep, tier):
    if not engexplored(rep, tier, "enum"): return
    eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=1, bad=.01, sofa=.1, maps=.05, cap=.9, dllbad=0), 300, 8, 40,
              lambda r, rng: eng.EG(r, rng, .1, dict(proc=20, setlang=14, mkview=2)))
def P23(rep, tier):
    if not engexplored(rep, tier, "enum"): return
    eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=1, bad=.01, sofa=.6, maps=.8, cap=.1, dllbad=0), 300, 8, 40,
              lambda r, rng: eng.EG(r, rng, .1, dict(proc=20, mkview=12, views=10, setlang=1)))

def P21(rep, tier):
    if not engexplored(rep, tier): return
    eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=.3, depth=2, maxn=5, bad=0, sofa=.2, maps=.25, cap=.1, dllbad=0, mult=.8), 200, 10, 60, eng.PG, inv="PoolOK(Cfgs[Hist[h].c], s)")
def P22(rep, tier):
    if not engexplored(rep, tier, "enum"): return
    eng_check(rep, tier, par.rndpar, 400, 6, 60, par.PARG, templ="templ_par.tla", inv="ParamsOK(Cfgs[Hist[h].c], s)")

TSK = dict(templ="templ_ts.tla", inv="Consistent(Cfgs[Hist[h].c], s)", exe="tsdrv")
def P01(rep, tier):
    if not engexplored(rep, tier): return
    eng_check(rep, tier, lambda rng: ts.TCfg(), 1, 1800, 110, ts.TG, **TSK)
def P02(rep, tier):
    if not engexplored(rep, tier, "enum"): return
    eng_check(rep, tier, ts.rndts, 600, 3, 70, ts.BG, **TSK)
def rewritten(mk, ways=(1, 1, 2)):
    """the same engines from descriptions that were written out and read again"""
    def f(rng):
        c = mk(rng)
        c.rw = rng.choice(ways)
        return c
    return f
def P25(rep, tier):
    vbuild.build(["casdrv"])
    def setup(g):
        g.weights, g.kinds = dict(add=30, rem=6, it=20, cur=14, size=4, find=6, valid=1, touch=1), dict(plain=5, anix=1, tset=2)
        g.setup_idx()
    rnd_check(rep, tier, lambda rng, q: [rewritten(rndcfg)(rng) for _ in range(60)], gen.G.step_idx, 400, 110, setup, share=.15)
    if rep.viol: return
    eng_check(rep, tier, ts.rndts, 250, 3, 50, type("BW", (ts.BG,), dict(rw=1, xml=.5)), name="ts", share=.35, **TSK)
    if rep.viol: return
    eng_check(rep, tier, rewritten(par.rndpar), 300, 4, 50, par.PARG, name="par", share=.65, templ="templ_par.tla", inv="ParamsOK(Cfgs[Hist[h].c], s)")
    if rep.viol: return
    eng_check(rep, tier, rewritten(lambda rng: eng.rndeng(rng, agg=.8, bad=.04, sofa=.5, maps=.5, cap=.4, dllbad=.03)), 200, 5, 40,
              lambda r, rng: eng.EG(r, rng, .1, dict(proc=14, mkview=8, views=6, setlang=5)), name="eng", share=.85)
    if rep.viol: return
    eng_check(rep, tier, rewritten(lambda rng: eng.rndeng(rng, agg=.4, depth=2, maxn=5, bad=0, sofa=.2, maps=.2, cap=.1, dllbad=0, mult=.8)), 80, 5, 50,
              eng.PG, inv="PoolOK(Cfgs[Hist[h].c], s)", name="mult")

def P26(rep, tier):
    """references into texts"""
    vbuild.build(["strdrv"])
    kw = dict(templ="templ_ustr.tla", inv="Laws(Cfgs[Hist[h].c])", exe="strdrv")
    mc.enumerated(rep, ustr.enumerated(tier == "quick"), lambda name, jobs, fn, cfgs: engrun(rep, name, jobs, fn, cfgs, **kw))
    if not rep.viol: eng_check(rep, tier, ustr.rnd, 500, 4, 60, ustr.UG, **kw)

def P27(rep, tier):
    """logging"""
    vbuild.build(["logdrv"])
    kw = dict(templ="templ_log.tla", inv="LogOK(Cfgs[Hist[h].c], s)", exe="logdrv")
    mc.explore(rep, tier, logs.space(tier == "quick"), lambda name, jobs, fn, cfgs: engrun(rep, name, jobs, fn, cfgs, **kw))
    if not rep.viol: eng_check(rep, tier, lambda rng: logs.LCfg(), 1, 1500, 60, logs.LG, **kw)

def P28(rep, tier):
    """declared indexes and type priorities"""
    vbuild.build(["engdrv", "traceann.so"])
    kw = dict(templ="templ_decl.tla", inv="DeclaredOK(Cfgs[Hist[h].c], s)")
    mc.enumerated(rep, decl.enumerated(tier == "quick"), lambda name, jobs, fn, cfgs: engrun(rep, name, jobs, fn, cfgs, **kw))
    if not rep.viol: eng_check(rep, tier, decl.rnd, 1500, 1, 60, decl.DG, **kw)

def P29(rep, tier):
    """errors"""
    vbuild.build(["errdrv", "engdrv"])
    kw = dict(templ="templ_err.tla", inv="ErrOK(Cfgs[Hist[h].c], s)", exe="errdrv")
    mc.enumerated(rep, errs.enumerated(tier == "quick"), lambda name, jobs, fn, cfgs: engrun(rep, name, jobs, fn, cfgs, **kw))
    if not rep.viol: eng_check(rep, tier, errs.rnd, 60, 25, 60, errs.EG, **kw)
    # what an annotator throws arrives at the application, through engines and aggregates
    if not rep.viol: eng_check(rep, tier, lambda rng: eng.rndeng(rng, agg=.6, bad=0, sofa=.1, maps=.1, cap=.1, dllbad=0), 60, 8, 40,
              lambda r, rng: eng.EG(r, rng, .6, dict(proc=20, mkview=1, setlang=1)), name="engines")

def run(pid, tier, rep):
    globals()[pid](rep, tier)
