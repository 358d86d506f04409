#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property against /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib, vbuild, props

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = vlib.Report(pid, tier)
    os.makedirs(vlib.WORK, exist_ok=True)
    try:
        props.run(pid, tier, rep)
    except vbuild.BuildError as x:
        print("BUILD FAILED\n%s" % x); return 2
    except vlib.Broken as x:
        print("BROKEN: %s" % x); return 2
    return rep.finish()

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception:
        traceback.print_exc(); sys.exit(2)
