#!/usr/bin/env python3
"""Development aid (not a check): confirms planted changes. seedtest.py ID..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
for i in sys.argv[1:]:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    res = {}
    clean()
    b = sh("bash /opt/vp/build.sh")
    res["demo_clean"] = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout); continue
    try:
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("tests") or base.get("passed")
        res["failed"] = len(o.get("failed", []))
        res["passed"] = len(o.get("passed", []))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        res["demo_patched"] = r.returncode
        r = sh("python3 %s/tools/check.py %s" % (V, meta["property"]), cwd=V)
        res["check"] = r.returncode
        tail = [l for l in r.stdout.splitlines() if l.strip()][-2:]
    finally:
        clean()
    ok = res["demo_clean"] == 0 and res["build"] == 0 and res["failed"] == 0 and res["demo_patched"] != 0
    print(i, meta["property"], "COUNTS" if ok else "BAD", "CAUGHT" if res["check"] == 1 else "MISSED", res, "|", " / ".join(tail)[:300], flush=True)
sh("bash /opt/vp/build.sh")
