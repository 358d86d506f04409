#!/usr/bin/env python3
"""replay.py FILE [N]: runs the operations of a recorded violation again, printing the driver's answers"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, glob
d = json.load(open(sys.argv[1]))["data"]
drv = vlib.Driver(d.get("exe", "casdrv"))
if "open" in d: print(drv.send(d["open"]))
for o in d["ops"]:
    r = drv.send(o)
    print(json.dumps(o)[:200], "->", json.dumps(r)[:int(sys.argv[2]) if len(sys.argv) > 2 else 300])
drv.close()
