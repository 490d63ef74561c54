"""obligation files: obs/Cxx.txt

    == id | title                     one observation
    @ opaque a.b c.d                  (optional) functions kept uninterpreted on both sides
    @ no raises over mut rng eff      (optional) components that are not compared
    snippet ...
    -- fresh                          (optional) expected: the same program with hist( replaced by fresh(
    -- spec                           (optional) hand-written expected program (evaluated in the reference world)
    snippet ...
    -- known KEY                      (optional) what the code is known to give instead: a recorded finding, not an alarm
    snippet ...
    === include Cyy [prefix ...]      the obligations of another property (those of these names only)
    === include * writes              those of all others, compared only for writes to the caller's objects
    === include * repeats             those of all others, the code against itself in another process, and for random draws
    === prelude                       text put in front of every following snippet of the file
"""
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obs:
    def __init__(self, prop, oid, title):
        self.prop, self.id, self.title = prop, oid, title
        self.opaque, self.no = [], []
        self.src, self.spec = "", None
        self.knownkey = self.known = None
        self.writes = self.repeats = False


def load(prop, root=HERE, own=False):
    out = []
    pre = ""
    cur = None
    mode = None
    path = os.path.join(root, "obs", prop + ".txt")
    buf = None
    for line in open(path):
        if line.startswith("=== prelude"):
            cur, mode, pre = None, "pre", ""
            continue
        if own and line.startswith("=== include"):
            continue
        if line.startswith(("=== include * writes", "=== include * repeats")):
            # every obligation of every other property, looked at only for writes to what the caller passed in,
            # or for what may differ from one process to the next
            rep = line.split()[3] == "repeats"
            for q in sorted(os.listdir(os.path.join(root, "obs"))):
                if re.fullmatch(r"C\d\d\.txt", q) and q[:3] not in (prop, "C02", "C22"):
                    for o in load(q[:3], root, True):
                        if "." not in o.id:
                            o2 = Obs(prop, o.prop + "." + o.id, ("same in every process: " if rep else "nothing the caller passed is changed: ") + o.title)
                            o2.opaque, o2.no, o2.src, o2.writes, o2.repeats = o.opaque, [], o.src, not rep, rep
                            out.append(o2)
            continue
        if line.startswith("=== include"):
            w = line.split()
            for o in load(w[2], root, True):
                if len(w) > 3 and not o.id.startswith(tuple(w[3:])) or "." in o.id:
                    continue
                o2 = Obs(prop, o.prop + "." + o.id, o.title)
                o2.opaque, o2.no, o2.src, o2.spec = o.opaque, o.no, o.src, o.spec
                o2.knownkey, o2.known = o.knownkey, o.known
                out.append(o2)
            continue
        if line.startswith("== "):
            m = re.match(r"== (\S+)\s*\|\s*(.*)", line)
            cur = Obs(prop, m.group(1), m.group(2).strip())
            cur.src = pre
            cur.pre = pre
            mode = "src"
            out.append(cur)
            continue
        if line.startswith("-- fresh"):
            # expected: the same program, each evaluation on a freshly built object
            cur.spec, mode = cur.src.replace("hist(", "fresh("), "done"
            continue
        if line.startswith("-- known"):
            # what the code is known to give instead (listed in KNOWN_FINDINGS.txt under this key)
            mode, cur.knownkey, cur.known = "known", line.split()[2], cur.pre
            continue
        if line.startswith("-- spec"):
            mode = "spec"
            cur.spec = cur.pre
            continue
        if line.startswith("@ ") and mode == "src":
            w = line.split()
            if w[1] == "opaque":
                cur.opaque += w[2:]
            elif w[1] == "no":
                cur.no += w[2:]
            continue
        if line.startswith("## "):
            continue
        if mode == "pre":
            pre += line
        elif mode == "src":
            cur.src += line
        elif mode == "known":
            cur.known += line
        elif mode == "spec":
            cur.spec += line
    seen = set()
    for o in out:
        assert o.id not in seen, o.id
        seen.add(o.id)
    return out
