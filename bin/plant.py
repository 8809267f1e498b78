#!/usr/bin/env python3
# plant.py ID... [--nocheck] [--checks=C01,C02] : validates a planted bug (development tool; uses /repo's working tree and restores it)
import json, os, subprocess, sys, time
def sh(c, t=900, **k):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passing", []))) if True else set()
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--nocheck" in sys.argv
extra = [a[9:].split(",") for a in sys.argv if a.startswith("--checks=")]
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain")[1].strip() == "", "repo not clean"
    out = [i, m["property"]]
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: print(i, "does not apply", o); continue
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        if rc: print(i, "does not build", o[-800:]); continue
        rc, o = sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = json.load(open("/tmp/plant.json"))
        passed = set(t.get("passed", []))
        missing = [x for x in base if x not in passed]
        out.append("tests:%s" % ("ok" if not missing else "FAIL " + str(missing[:4])))
        rc, o = sh("bash %s/demo.sh" % d, 300, cwd="/repo")
        out.append("demo+:%s" % rc)
        if rc == 0: print(o[-500:])
        if not nocheck:
            for c in (extra[0] if extra else [m["property"]]):
                t0 = time.time()
                rc, o = sh("python3 bin/check.py %s quick" % c, cwd="/verif")
                out.append("%s:%s%s %.0fs" % (c, rc, " CAUGHT" if rc == 1 and "VIOLATION property=%s" % c in o else "", time.time() - t0))
                open("/tmp/plant.%s.%s.log" % (i, c), "w").write(o)
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    rc, o = sh("bash %s/demo.sh" % d, 300, cwd="/repo")
    out.append("demo-:%s" % rc)
    if rc: print(o[-500:])
    print(*out, flush=True)
