#!/usr/bin/env python3
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C28": "bounds on floating-point rounding and positive definiteness for arbitrary parameter values quantify over runtime numbers; no static argument in reach bounds the conditioning of data-dependent matrices",
 "C29": "a distributional statement about random draws; statically only the expressions of mean and covariance factor can be checked, which C20 does",
 "C30": "equality with the numbers computed by tempo2/PINT depends on those external packages, which are not installed and not part of the source",
 "C31": "interleavings of several operating-system processes on shared memory, decided by the kernel and the multiprocessing package rather than by this source; the sequential protocol is C14",
}
TECH = "static value-flow analysis: abstract interpretation of the source into gated value graphs, compared with reference programs"
RULES = {
 "C01": "static value-flow analysis of call histories: value graphs after earlier evaluations compared with those of fresh objects (caches, memos and escaping arrays are abstract state)",
 "C02": "static alias/effect analysis (in-place writes reaching caller-owned values, through views) over abstract interpretation of the source",
 "C15": "static effect analysis of working-directory changes on every exit, and value-graph comparison of loader dispatch",
 "C22": "static two-run value-flow analysis (set order, identity, hash, clock renamed) plus call-graph rule on random draws over the whole tree",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "obs", i + ".txt")):
        checks.append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
                       "technique": RULES.get(i, TECH), "level": "other",
                       "level_note": "Every obligation discharged means: the stated client programs compute the same value graph as their reference program (hand-written formula or reviewed source), for all values of what the program leaves opaque, modulo the listed algebraic laws (over the reals; obligations on small literal arrays, by constant propagation, cover that data only). Trusted: the interpreter's model of Python and of the numpy/scipy vocabulary, and the reference programs. Differences that the normal form cannot decide are reported as undecided, not as violations."})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
