#!/usr/bin/env python3
"""Applies each seeded bug to /repo in turn, runs the check of its property (or of PROPS), undoes it.
usage: catch.py [-p C01,C02] [ID...]"""
import json, os, subprocess, sys, time
args = sys.argv[1:]
props = None
if args[:1] == ["-p"]:
    props = args[1].split(","); args = args[2:]
S = "/verif/seeded"
assert not subprocess.run("git -C /repo status --short", shell=True, capture_output=True, text=True).stdout.strip()
miss = 0
for i in sorted(os.listdir(S)):
    if args and i not in args:
        continue
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)], check=True)
    try:
        for p in props or [m["property"]]:
            t = time.time()
            r = subprocess.run(["/verif/check.sh", p], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            run = [l for l in r.stdout.splitlines() if l.startswith("run ")]
            mini = [l for l in r.stdout.splitlines() if l.startswith("minimised")]
            print("%-26s %s %s rc=%d %.0fs %s | %s" % (i, p, "CAUGHT" if hit else "missed", r.returncode, time.time() - t, (run or [""])[0][:110], (mini or [""])[0][:40]), flush=True)
            miss += not hit
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
sys.exit(miss != 0)
