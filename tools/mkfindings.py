#!/usr/bin/env python3
"""Source of known-findings.json: repaired defects (by commit subject) and recorded ones."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = json.load(open(os.path.join(V, "tools", "fixes.json")))
KNOWN = [
 {"property": "P03", "id": "nul", "what": "a string containing U+0000 written to a feature reads back cut off at that character"},
]
log = subprocess.run("git -C ${VERIF_REPO:-/repo} log --format='%h %s' f4acabf..HEAD", shell=True, text=True, stdout=subprocess.PIPE).stdout.splitlines()
by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log if l}
out = [dict(k, status="known", entry="known: property=%s %s" % (k["property"], k["what"])) for k in KNOWN]
seen = set()
for subj, pid, what in FIX:
    c = by.get(subj)
    assert c, subj
    seen.add(subj)
    out.append({"property": pid, "status": "fixed", "commit": c, "what": what, "entry": "fixed: property=%s %s %s" % (pid, c, what)})
for s in by:
    if s not in seen: print("UNLISTED", by[s], s)
json.dump(out, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
