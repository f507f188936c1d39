#!/usr/bin/env python3
"""plant.py ID...: confirm the planted changes in a scratch copy (builds, stable tests pass, demo fails with, passes without), then run the property's check on /repo with the change applied.
-n: confirm only; -c: check only."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith("-")]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def confirm(i, d):
    """With unshare -m the copy could stand at /repo; without, build in place and put back."""
    p = os.path.join(d, "patch.diff")
    r = sh("bash /opt/vp/build.sh", "/repo")
    r = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-600:]
    r = sh("git apply --check %s && git apply %s" % (p, p), "/repo")
    if r.returncode:
        return "does not apply: " + r.stdout
    try:
        r = sh("bash /opt/vp/build.sh", "/repo")
        if r.returncode:
            return "does not build: " + r.stdout[-500:]
        r = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
        if r.returncode == 0:
            return "demo passes with the change"
        dm = "demo rc %d: %s" % (r.returncode, r.stdout.strip()[-120:].replace("\n", " | "))
        r = sh("bash /opt/vp/test.sh /tmp/plant_out.json", "/repo")
        o = json.load(open("/tmp/plant_out.json"))
        lost = base - set(o["passed"])
        if lost:
            return "tests fail: %d, e.g. %s" % (len(lost), sorted(lost)[:5])
        return "ok; " + dm
    finally:
        sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")


def check(i, d):
    m = json.load(open(os.path.join(d, "meta.json")))
    p = os.path.join(d, "patch.diff")
    r = sh("git apply %s" % p, "/repo")
    try:
        r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % m["property"], V)
        w = [l for l in r.stdout.split("\n") if l.startswith("  [")]
        return "%s rc=%d %s %s" % (m["property"], r.returncode, r.stdout.strip().split("\n")[-1], w[0][:160] if w else "")
    finally:
        sh("git checkout -- .", "/repo")


for i in ids:
    d = os.path.join(V, "seeded", i)
    if "-c" not in opts:
        print(i, "confirm:", confirm(i, d), flush=True)
    if "-n" not in opts:
        print(i, "check:", check(i, d), flush=True)
