#!/bin/bash
# fix.sh PID SUBJECT WHAT: commits the working tree of ${VERIF_REPO:-/repo} as a repair and records it
set -e
git -C ${VERIF_REPO:-/repo} commit -qam "fix: $2"
python3 - "$@" <<'P'
import json, sys
p = "/verif/tools/fixes.json"
l = json.load(open(p)); l.append(["fix: " + sys.argv[2], sys.argv[1], sys.argv[3]])
json.dump(l, open(p, "w"), indent=0)
P
python3 /verif/tools/mkfindings.py
