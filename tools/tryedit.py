#!/usr/bin/env python3
"""tryedit.py SPEC.py [PROP,...]: SPEC defines CASES = [(title, file, old, new)]; each is applied to a scratch copy and the checks are run on it"""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
props = sys.argv[2] if len(sys.argv) > 2 else None
def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)
d = tempfile.mkdtemp(prefix="tryedit")
try:
    shutil.copytree("/repo/enterprise", d + "/enterprise", ignore=shutil.ignore_patterns("datafiles", "__pycache__"))
    for title, f, old, new in ns["CASES"]:
        p = d + "/enterprise/" + f
        s = open(p).read()
        if s.count(old) < 1:
            print("NOT FOUND", title); continue
        open(p, "w").write(s.replace(old, new, 1))
        ps = props.split(",") if props else [x[:3] for x in sorted(os.listdir(HERE + "/obs")) if x[0] == "C"]
        procs = [(q, subprocess.Popen([sys.executable, HERE + "/check.py", "--property", q, "--noevidence", "--repo", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for q in ps]
        hits, more = [], ""
        for q, pr in procs:
            o = pr.communicate()[0]
            if pr.returncode == 1 and "VIOLATION" in o:
                hits.append(q)
                more += "".join("      " + l[:200] + "\n" for l in o.splitlines() if "broken" in l or "why" in l or "component" in l or "Error" in l)[:600]
        print(("caught " + ",".join(hits)) if hits else "MISSED", "|", title)
        if "-v" in sys.argv: print(more)
        sys.stdout.flush()
        open(p, "w").write(s)
finally:
    shutil.rmtree(d)
