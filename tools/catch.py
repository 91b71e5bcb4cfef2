#!/usr/bin/env python3
"""Runs the checks against planted bugs, in copies. catch.py [-j N] [--checks C01,C02|all] [--patch FILE | ids...]"""
import argparse, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/catchwork"
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--checks")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--dir", default=os.path.join(VERIF, "seeded"))
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
ids = a.ids or sorted(os.listdir(a.dir))
ALL = ["C%02d" % i for i in range(1, 100) if '"C%02d"' % i in open(os.path.join(VERIF, "properties.jsonl")).read()]
q = Queue()
for i in range(a.j):
    w = "%s/%d" % (WORK, i)
    os.makedirs(w, exist_ok=True)
    sh("rsync -a --delete /repo/ %s/repo/ || (find %s/repo -delete; cp -a /repo %s/repo)" % (w, w, w))
    sh("find %s/verif -delete; mkdir -p %s/verif; cd %s && tar c --exclude=.git --exclude=seeded . | tar x -C %s/verif" % (w, w, VERIF, w))
    q.put(w)
tot = {}
def one(bid):
    w = q.get()
    try:
        sh("git -C %s/repo checkout -q -- ." % w)
        pd = bid if bid.endswith(".diff") else os.path.join(a.dir, bid, "patch.diff")
        r = sh("git -C %s/repo apply %s" % (w, pd))
        if r.returncode:
            print(bid, "DOES NOT APPLY", r.stderr); return
        if a.checks == "all": cs = ALL
        elif a.checks: cs = a.checks.split(",")
        else: cs = [json.load(open(os.path.join(a.dir, bid, "meta.json")))["property"]]
        for c in cs:
            t = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=%s VERIF_TIER=%s timeout 900 python3 check.py %s" % (w, w, a.seed, a.tier, c)],
                capture_output=True, text=True)
            out = r.stdout + r.stderr
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            if a.checks == "all" and r.returncode == 0: continue
            print("%-30s %s rc=%d %4.0fs %s %s" % (bid, c, r.returncode, time.time() - t,
                  "CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "BROKEN",
                  (v[0] if v else out[-300:].replace("\n", " | "))), flush=True)
    finally:
        sh("git -C %s/repo checkout -q -- ." % w)
        q.put(w)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, ids))
