#!/usr/bin/env python3
"""developer tool: run the observations of a property file against /repo and print the outcomes"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obs, terms as t, load, compare
obs.DEBUG = "-d" in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith("-")]
root = os.environ.get("SA_ROOT", "/repo")
W = obs.World(root)
for o in load.load(args[0]):
    if len(args) > 1 and not any(o.id.startswith(a) for a in args[1:]):
        continue
    for which, src in (("code", o.src), ("spec", o.spec)):
        if src is None:
            continue
        t0 = time.time()
        r = obs.run(W, src, o.opaque)
        dt = time.time() - t0
        if "-q" in sys.argv and not r.undecided and dt < 2:
            continue
        print(">>", o.id, which, "%.2fs" % dt, "" if not r.undecided else "UNDECIDED " + r.undecided)
        if r.undecided:
            continue
        print("   ", t.show(r.ret, int(os.environ.get("D", "9")))[:int(os.environ.get("N", "1200"))])
        for g, x in r.raises:
            print("    raises", t.show(g)[:200], t.show(x)[:80])
        for k, v in r.over.items():
            print("    over", t.show(k), "=", t.show(v)[:200])
        if r.mut:
            print("    mut", [t.show(x) for x in r.mut])
        if r.eff is not None and r.eff.args:
            print("    eff", t.show(r.eff)[:300])
