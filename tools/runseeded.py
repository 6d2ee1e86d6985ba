#!/usr/bin/env python3
"""Validates planted changes against /repo: build, 556 tests, demo, check.
usage: runseeded.py [--nocheck] [--tier T] id...    (authoring aid)"""
import os, subprocess, sys, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # a copy may be given
args = sys.argv[1:]
nocheck = "--nocheck" in args
args = [a for a in args if not a.startswith("--")]
DIRS = [V + "/seeded", V + "/seeded_ml"]
ids = args or [i for D in DIRS for i in sorted(os.listdir(D))]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = None
for k in base:
    if isinstance(base[k], list) and len(base[k]) == 556: stable = set(base[k])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C %s checkout -- ." % REPO)
clean()
ENV = ". /opt/vp/env.sh; cd %s; " % REPO
def build(): return sh(ENV + "dune build --root . --profile release @@default")
def tests():
    """the tests that passed (all of them, in the stable list's sense, when the suite succeeds)"""
    if REPO == "/repo":
        sh("rm -f /tmp/rs.json; bash /opt/vp/test.sh /tmp/rs.json")
        miss = stable - set(json.load(open("/tmp/rs.json"))["passed"])
        return "ok" if not miss else "LOST %d %s" % (len(miss), sorted(miss)[:2])
    r = sh("cd %s/_build/default/test && timeout 300 ./test.exe" % REPO)
    return "ok" if r.returncode == 0 and "All tests successful" in r.stdout + r.stderr else "LOST " + (r.stdout + r.stderr)[-200:]
build()
for i in ids:
    d = [D + "/" + i for D in DIRS if os.path.isdir(D + "/" + i)][0]; m = json.load(open(d + "/meta.json")); out = []
    t0 = time.time()
    r = sh("bash %s/demo.sh" % d, cwd=REPO); out.append("clean-demo=%d" % r.returncode)
    if r.returncode: print(r.stdout[-600:], r.stderr[-600:])
    a = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    try:
        if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
        b = build(); out.append("build=%d" % b.returncode)
        if b.returncode: print(b.stderr[-1500:])
        out.append("tests=" + tests())
        r = sh("bash %s/demo.sh" % d, cwd=REPO); out.append("demo=%d(%s)" % (r.returncode, r.stderr.strip()[-80:]))
        if not nocheck:
            t = time.time()
            c = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s quick" % (REPO, m["property"]), cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=%s " % m["property"])]
            out.append("check=%d %s %.0fs" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", time.time() - t))
            if c.returncode not in (0, 1): print(c.stdout[-1500:], c.stderr[-1500:])
    finally: clean()
    print(i, m["property"], " ".join(out), flush=True)
build()
