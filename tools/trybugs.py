#!/usr/bin/env python3
"""trybugs.py [id ...]: applies each planted bug to /repo, runs the check of its property, undoes it."""
import glob
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
for i in ids:
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", prop, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    out = p.stdout.decode("utf-8", "replace")
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    caught = p.returncode == 1 and v
    print("%-24s %s %s %.0fs %s" % (i, prop, "caught" if caught else "MISSED rc=%d" % p.returncode, time.time() - t,
                                    [l for l in out.splitlines() if "replay" not in l and ":" in l][-1:] ), flush=True)
