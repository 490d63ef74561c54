#!/usr/bin/env python3
"""developer tool: observations without a hand-written spec whose reference outcome always raises (they decide nothing
but the error), and functions of the repository that no observation reaches"""
import os, sys, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obs, terms as t, load, runner
W = obs.World("/verif/ref")
seen = set()
for f in sorted(os.listdir("/verif/obs")):
    if not f.startswith("C"):
        continue
    for o in load.load(f[:-4]):
        r = runner.safe_run(W, o.src, o.opaque)
        seen |= {(m, q) for m, q, ln in r.touched}
        if r.undecided:
            continue
        if r.ret is not None and r.ret.op == "noreturn" and o.spec is None:
            print(f[:-4], o.id, [t.show(x)[:60] for _, x in r.raises])
for name, m in W.I.mods.items():
    if m.tree is None or not name.startswith("enterprise"):
        continue
    for q in runner.fdefs(m.tree):
        if not any(mm == name and (qq == q or qq.endswith("." + q) or q.endswith("." + qq) or qq == q.split(".")[-1]) for mm, qq in seen):
            print("uncovered", name, q)
