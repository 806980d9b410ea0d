#!/usr/bin/env python3
"""python3 tools/runseeds.py [ID...]: apply each planted change to /repo, run its property's quick check, undo it"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE).stdout
for i in ids:
    d = "%s/seeded/%s" % (ROOT, i)
    p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3-vt", "check.py", p, "quick"], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    ok = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
    print("%-8s %s %s rc=%d %.0fs  %s" % (i, p, "caught" if ok else "MISSED", r.returncode, time.time() - t,
          [l for l in r.stdout.splitlines() if l.startswith(("counterexample", "UNCONF", "UNDEC", "ERROR"))][:2]), flush=True)
