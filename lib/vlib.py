"""Running the drivers, recording histories, checking them against the specification with TLC, reporting."""
import os, sys, json, subprocess, time, random, shutil, tempfile, re, hashlib, threading, concurrent.futures as cf
import vals, vbuild, iso

VERIF = vbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(vbuild.BUILD, "work")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
START = time.time()

class Broken(Exception):
    """the machinery itself failed: exit 2, never a verdict"""

def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

# ------------------------------------------------------------------ driver
class Driver:
    def __init__(self, exe="casdrv", san=False, cwd=None, env=None):
        self.bdir = os.path.join(vbuild.BUILD, "san" if san else "opt")
        self.exe, self.cwd, self.env = os.path.join(self.bdir, exe), cwd or WORK, env
        self.p = None
    def start(self):
        env = dict(os.environ, LD_LIBRARY_PATH=self.bdir, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0", LC_ALL="C.UTF-8")
        if not self.exe.endswith("tsdrv"): env["UIMACPP_HOME"] = os.environ.get("VERIF_REPO", "/repo")
        if self.env: env.update(self.env)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.environ["DRVERR"], "a") if os.environ.get("DRVERR") else subprocess.DEVNULL,
                                  text=True, cwd=self.cwd, env=env, bufsize=1)
    def send(self, o):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(json.dumps(o) + "\n"); self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l: break
                if l.startswith("{"):
                    r = json.loads(l)
                    if r["t"] in ("CRASH", "HANG"): self.close()
                    return r
        except (BrokenPipeError, ValueError):
            pass
        self.close()
        return {"t": "CRASH", "v": []}
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.wait(timeout=5)
            except Exception: self.p.kill(); self.p.wait()
            try: self.p.stdout.close()
            except Exception: pass
            self.p = None

DEAD = ("CRASH", "HANG")
class Rec:
    """records one history: op() runs an operation on the library and keeps what it returned"""
    def __init__(self, drv, cfg, ci, cdir):
        self.drv, self.cfg, self.ci, self.ops, self.dead, self.dir = drv, cfg, ci, [], False, cdir
        r = drv.send({"cfg": cfg.driver(cdir)})
        self.opened = r
        if r["t"] != "ok":
            self.dead = True
    def op(self, **e):
        if self.dead: return None
        r = self.drv.send(e)
        ent = {k: v for k, v in e.items() if k not in ("val", "vals", "mime", "red")}
        if "scr" in ent: ent["scr"] = [dict(x, acts=[{"k": a["k"], "n": a["n"]} for a in x["acts"]]) for x in ent["scr"]]
        ent["rt"] = r["t"]
        ent["rv"] = [vals.dec(x) for x in r["v"] if not isinstance(x, dict)]
        ent["raw"] = r["v"]
        ent["_e"] = e
        if e["op"] in ("it", "find", "fcov", "prio") and r["t"] == "ok": ent["obs"] = ent["rv"]
        if e["op"] == "q" and e["k"] == "order": ent["obs"] = ent["rv"]
        if e["op"] == "rt": self.transfer(ent, r)
        if "flt" in ent: ent["flt"] = strip_flt(ent["flt"])
        self.ops.append(ent)
        if r["t"] in DEAD: self.dead = True
        return ent
    def transfer(self, ent, r):
        """what a round trip showed, in the terms of the specification"""
        ent["obs"], ent["ost"] = [], []
        if r["t"] != "ok": return
        src, dst = r["v"][:2]
        ent["obs"], ent["ost"] = iso.observe(self.cfg, "xmi" if ent["fmt"] in ("xmi", "oots") else ent["fmt"], src, dst)
        ent["raw"] = iso.flat(self.cfg, dst)
        ent["rv"] = [vals.dec(x) for x in ent["raw"]]
        ent["graph"] = dst
def strip_flt(f):
    return {k: strip_flt(v) if isinstance(v, dict) else v for k, v in f.items() if k != "val"}

# ------------------------------------------------------------------ TLC
def tlc(d, mod, cfgtext, workers=8, heap="6g", timeout=800, extra=(), partial=False):
    open(os.path.join(d, mod + ".cfg"), "w").write(cfgtext)
    md = os.path.join(d, "md-" + mod)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", mod + ".cfg"] + list(extra) + [mod + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(md, ignore_errors=True)
        if partial: return None, (x.stdout or b"").decode("utf-8", "replace")     # what it got to
        raise Broken("TLC timed out on " + mod)
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout

def states(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def unq(s): return json.loads('"' + s + '"') if '"' not in s.replace('\\"', '') else s

BATCH = 3500
def check_traces(hists, cfgs, d, templ="templ_trace.tla", inv="TRUE", cfgrec=None, timeout=800):
    """hists: list of {"c": config index (1-based), "ops": [...]}; returns (list of (hist idx, op idx, expected), stats)"""
    if not hists: return [], {"states": 0, "transitions": 0, "traces": 0}
    if len(hists) > BATCH:                               # (TLC cannot put states with unevaluated functions on disk)
        bads, sum_ = [], {"states": 0, "transitions": 0, "traces": 0}
        for k in range(0, len(hists), BATCH):
            b, st = check_traces(hists[k:k + BATCH], cfgs, d, templ, inv, cfgrec, timeout)
            bads += [(hi + k, oi, e) for hi, oi, e in b]
            for n in sum_: sum_[n] += st[n]
        return bads, sum_
    with open(os.path.join(d, "hist.ndjson"), "w") as f:
        for h in hists:
            f.write(json.dumps({"c": h["c"], "ops": [{k: v for k, v in o.items() if k not in ("raw", "_e", "graph")} for o in h["ops"]]}) + "\n")
    with open(os.path.join(d, "cfg.ndjson"), "w") as f:
        for c in cfgs: f.write(json.dumps(c.tla() if hasattr(c, "tla") else c) + "\n")
    t = open(os.path.join(SPEC, templ)).read().replace("@INV@", inv)
    open(os.path.join(d, "TraceCheck.tla"), "w").write(t)
    rc, out = tlc(d, "TraceCheck", "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", timeout=timeout)
    bads = []
    for m in re.finditer(r'<<"BAD", (\d+), (\d+), "(.*)">>', out):
        bads.append((int(m.group(1)) - 1, int(m.group(2)) - 1, json.loads(json.loads('"' + m.group(3) + '"'))))
    g, n = states(out)
    bad1 = {b[0]: b[1] for b in bads}
    want = sum((bad1[k] + 2) if k in bad1 else len(h["ops"]) + 1 for k, h in enumerate(hists))
    if rc != 0 or n != want:
        raise Broken("TLC rc=%d, %d states for %d recorded steps\n%s" % (rc, n, want, out[-3000:]))
    return bads, {"states": n, "transitions": n - len(hists), "traces": len(hists)}

# ------------------------------------------------------------------ parallel recording
def record(jobs, fn, exe="casdrv", san=False, n=8, env=None, deadline=None):
    """jobs: list; fn(driver, job) -> list of history dicts. Runs on n drivers."""
    out = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lk = threading.Lock()
    errs = []
    hung = [0]
    def work():
        drv = Driver(exe, san, env=env)
        try:
            while True:
                with lk:
                    k = next(it, None)
                if k is None or errs: break
                if deadline and time.time() > deadline: break
                out[k] = fn(drv, jobs[k])
                # a library that hangs again and again has shown what it does
                if sum(1 for h in out[k] or [] for o in h["ops"][-1:] if o["rt"] == "HANG"):
                    hung[0] += 1
                if hung[0] > 10: break
        except Exception as x:
            import traceback
            errs.append(traceback.format_exc())
        finally:
            drv.close()
    ths = [threading.Thread(target=work) for _ in range(n)]
    for t in ths: t.start()
    for t in ths: t.join()
    if errs: raise Broken(errs[0])
    return [h for o in out if o for h in o]

# ------------------------------------------------------------------ known findings, verdicts, evidence
def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "operations_executed": 0, "model_states": 0, "model_transitions": 0, "samples": []}
        self.viol = []
        self.notes = []
    def add(self, st, traces=True):
        if traces:
            self.cov["states"] += st["states"]; self.cov["transitions"] += st["transitions"]
            self.cov["traces_validated_against_impl"] += st["traces"]
    def addmodel(self, g, n):
        self.cov["model_states"] += n; self.cov["model_transitions"] += g
        self.cov["states"] += n; self.cov["transitions"] += g
    def sample(self, hists, n=3):
        """a few of the histories that were executed, written out"""
        for h in hists:
            if len(self.cov["samples"]) >= 12 or n <= 0: break
            if not h["ops"]: continue
            n -= 1
            self.cov["samples"].append([dict(o["_e"], result=[o["rt"]] + o["raw"]) for o in h["ops"][:14]])
    def violation(self, what, data):
        self.viol.append((what, data))
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking", "coverage": self.cov,
              "wall_s": round(time.time() - START, 2), "violations": len(self.viol), "notes": self.notes}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        rd = os.path.join(vbuild.BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, (what, data) in enumerate(self.viol[:10]):
            p = os.path.join(rd, "%s-%d.json" % (self.pid, k + 1))
            json.dump({"property": self.pid, "what": what, "data": data}, open(p, "w"), indent=1)
            print("%s" % what)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1 if self.viol else 0

def describe(h, k, exp, cfg):
    o = h["ops"][k]
    return "operation %d %s: the library answered %s %s, the specification says %s %s" % (
        k + 1, json.dumps(o["_e"]), o["rt"], json.dumps(o["raw"]), exp["t"], json.dumps(exp["v"]))
