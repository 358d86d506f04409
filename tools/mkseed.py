#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py: mkseed.py ID... (needs a clean /repo, leaves it clean)"""
import os, sys, json, subprocess, shutil
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
import seeds
def sh(c, **k): return subprocess.run(c, shell=True, text=True, **k)
for i in sys.argv[1:] or list(seeds.S):
    s = seeds.S[i]
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh("git -C /repo status --porcelain", stdout=subprocess.PIPE).stdout.strip(), "dirty /repo"
    for f, old, new in s["edits"]:
        p = os.path.join("/repo", f); x = open(p).read()
        assert x.count(old) == 1, (i, f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff", stdout=subprocess.PIPE).stdout)
    sh("git -C /repo checkout -q -- .")
    json.dump({"property": s["p"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write('#include "demo.hpp"\n' + s.get("pre", "") + "\nint body() {\n" + s["demo"] + "\n  return 0;\n}\n")
    shutil.copy(os.path.join(T, "demo.hpp"), d); shutil.copy(os.path.join(T, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, x in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(x)
    if s.get("xml", True): shutil.copy(os.path.join(T, "seed.xml"), os.path.join(d, "d.xml"))
