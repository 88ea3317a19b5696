#!/usr/bin/env python3
"""By hand: for each planted change (arguments, or all), confirm it counts (builds, stable tests, demo) and run its check.
usage: seedrun.py [--checks-only] [--also C11,C12] [id...]"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
only = "--checks-only" in a
a = [x for x in a if x != "--checks-only"]
also = []
if "--also" in a:
    i = a.index("--also"); also = a[i + 1].split(","); del a[i:i + 2]
ids = a or sorted(os.listdir(ROOT + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
for i in ids:
    d = ROOT + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    msg = []
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    if not only:
        r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
        msg.append("clean-demo=%d" % sh("bash %s/demo.sh" % d, cwd="/repo").returncode)
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "PATCH FAILS", r.stdout); continue
        if not only:
            r = sh("bash /opt/vp/build.sh"); msg.append("build=%d" % r.returncode)
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            p = set(json.load(open("/tmp/seedtest.json"))["passed"])
            msg.append("tests=%s" % ("ok" if stable <= p else sorted(stable - p)))
            msg.append("demo=%d" % sh("bash %s/demo.sh" % d, cwd="/repo").returncode)
        for c in [prop] + also:
            t = time.time()
            r = sh("python3 check.py " + c, cwd=ROOT)
            msg.append("%s=%s(%ds)" % (c, {0: "MISSED", 1: "caught" if "VIOLATION property=" + c in r.stdout else "??"}.get(r.returncode, "rc%d" % r.returncode), time.time() - t))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, *msg, flush=True)
sh("bash /opt/vp/build.sh")
