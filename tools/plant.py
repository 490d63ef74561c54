#!/usr/bin/env python3
"""builds /verif/seeded/<id> from tools/bugs/<id>.py and confirms it in a scratch copy
usage: plant.py ID...      (bug file: PROP, FILE, EDITS=[(old,new),...] or [(file,old,new)], NEEDS, BREAKS, DEMO)"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def plant(i):
    ns = {}
    exec(open("%s/tools/bugs/%s.py" % (V, i)).read(), ns)
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    W = "/tmp/plant_%s" % i
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(R, W, symlinks=True)
    try:
        for e in ns["EDITS"]:
            f, old, new = e if len(e) == 3 else (ns["FILE"],) + tuple(e)
            p = "%s/enterprise/%s" % (W, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", W).stdout
        assert diff
        # only original lines
        base = sh("git log --format=%H --reverse | head -1", R).stdout.strip()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.path.insert(0, os.getcwd())\n" + ns["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        shutil.copy("%s/tools/mockpsr.py" % V, d + "/mockpsr.py")
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, R, timeout=300)
        b = sh("bash %s/demo.sh" % d, W, timeout=300)
        ok = a.returncode == 0 and b.returncode != 0
        msg = ""
        if not ok:
            msg = "clean rc=%d patched rc=%d\n%s\n%s" % (a.returncode, b.returncode, (a.stdout + a.stderr)[-1500:], (b.stdout + b.stderr)[-600:])
        else:
            msg = (b.stdout + b.stderr).strip().split("\n")[-1][:150]
        # the stable tests
        ids = json.load(open("/opt/vp/BASELINE.json"))
        r = run_tests(W, ids)
        # the check
        c = sh("python3 check.py --property %s --repo %s --noevidence" % (ns["PROP"], W), V, timeout=900)
        print("%-6s %s demo=%s tests=%s check=%s | %s" % (i, ns["PROP"], "ok" if ok else "BAD", r, {0: "MISSED", 1: "caught"}.get(c.returncode, "?%d" % c.returncode), msg))
        sys.stdout.flush()
        return ok and r == "ok"
    finally:
        shutil.rmtree(W, ignore_errors=True)


def run_tests(W, ids):
    import xml.etree.ElementTree as ET
    sh("OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
       "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/junit.xml tests" % (W, W), W, timeout=600)
    ok = set()
    for c in ET.parse(W + "/junit.xml").iter("testcase"):
        if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    bad = [x for x in ids["stable"] if x not in ok]
    return "FAIL " + "; ".join(bad)[:300] if bad else "ok"


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    a = sys.argv[1:]
    if a == ["all"]:
        a = sorted(f[:-3] for f in os.listdir(V + "/tools/bugs") if f.endswith(".py"))
    with ThreadPoolExecutor(4) as ex:
        r = list(ex.map(plant, a))
    print(sum(r), "of", len(r), "valid")
