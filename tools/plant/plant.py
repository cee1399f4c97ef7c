#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from bugs.py: applies each edit to a scratch copy of /repo, checks that it
builds, that the stable tests still pass, and that the demonstration tells the two trees apart.
usage: plant.py [ID...]"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
W = "/tmp/plant-work"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", TZ="UTC", CARGO_TARGET_DIR=W + "/target", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed")
def stable_ok(d):
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 1", d)
    open(W + "/t.log", "w").write(r.stdout)
    o = sh("python3 /opt/vp/results.py %s/o.json cargo:%s/t.log" % (W, W), d)
    got = set(json.load(open(W + "/o.json"))["passed"])
    return [t for t in stable if t not in got], r.stdout
DEMO = '''#!/bin/bash
# cwd: a tree of ruplicity.  Builds a copy of it with the test beside this file.
here=$(cd "$(dirname "$0")" && pwd)
d=/tmp/ruplicity-demo-%(id)s
rm -rf /tmp/ruplicity-demo-%(id)s
mkdir -p "$d/tests" || exit 99
cp -a Cargo.toml src "$d/" || exit 99
[ -f Cargo.lock ] && cp -a Cargo.lock "$d/"
cp "$here/demo.rs" "$d/tests/demo.rs" || exit 99
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target" PATH="/root/.cargo/bin:$PATH"
cd "$d" && timeout 250 cargo test --offline --test demo -- --test-threads 1
rc=$?
rm -rf /tmp/ruplicity-demo-%(id)s
exit $rc
'''
bad = 0
want = sys.argv[1:]
os.makedirs(W, exist_ok=True)
prelude = open(here + "/prelude.rs").read()
for b in BUGS:
    i = b["id"]
    if want and i not in want:
        continue
    d = W + "/repo"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    shutil.copy("/repo/Cargo.lock", d)
    out = os.environ.get("PLANT_OUT", "/verif/seeded") + "/" + i
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.rs", "w").write(prelude + b["demo"].strip() + "\n")
    open(out + "/demo.sh", "w").write(DEMO % {"id": i})
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % out, d)
    for f, old, new in b["edits"]:
        s = open(d + "/" + f).read()
        if s.count(old) != 1:
            print(i, "EDIT does not match once:", f, s.count(old), repr(old[:60])); bad = 1; break
        open(d + "/" + f, "w").write(s.replace(old, new))
    else:
        diff = sh("git diff", d).stdout
        open(out + "/patch.diff", "w").write(diff)
        miss, log = stable_ok(d)
        r1 = sh("bash %s/demo.sh" % out, d)
        ok = r0.returncode == 0 and r1.returncode not in (0, 99) and not miss and ("test result: FAILED" in r1.stdout or "E0277" in r1.stdout)
        # which removed lines are original?
        orig = []
        for f in set(e[0] for e in b["edits"]):
            bl = sh("git blame -s HEAD -- %s" % f, d).stdout.splitlines()
            hunks = sh("git diff -U0 -- %s" % f, d).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                st, n = int(m[1]), int(m[2] or 1)
                orig += [bl[k][0] == "^" for k in range(st - 1, st - 1 + n)]
        print(i, "OK" if ok and any(orig) else "BAD", "demo", r0.returncode, r1.returncode, "missing", miss, "original lines", sum(orig), "of", len(orig), flush=True)
        if not ok:
            bad = 1
            open(W + "/" + i + ".log", "w").write(r0.stdout + "\n=====TESTS\n" + log + "\n=====PATCHED\n" + r1.stdout)
shutil.rmtree(W + "/repo", ignore_errors=True)
sys.exit(bad)
