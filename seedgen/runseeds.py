#!/usr/bin/env python3
"""runseeds.py [ids]: runs the check of each planted bug's property on a scratch copy with the bug."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/rs_" + i
    subprocess.run("rm -rf %s; mkdir %s; cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s; cd %s && git init -q . 2>/dev/null; git apply %s/patch.diff" % (wt, wt, wt, wt, d), shell=True)
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", prop], cwd=V, env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    last = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2] or r.stdout.splitlines()[-2:]
    print(i, prop, "CAUGHT" if r.returncode == 1 else "rc=%d" % r.returncode, "%.0fs" % (time.time() - t), " / ".join(x[:200] for x in last), flush=True)
    subprocess.run(["rm", "-rf", wt])
