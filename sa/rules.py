"""Rules over the syntax tree and call graph of the whole package, next to the value-flow obligations."""
import ast
import os

SOURCES = {"random draws": ("numpy.random.", "random.", "secrets."), "the clock": ("time.time", "time.perf_counter", "time.monotonic", "time.process_time",
           "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"),
           "process identity": ("os.getpid", "os.urandom", "uuid.", "threading.get_ident")}


class Tree:
    """functions of a package with what each one calls, resolved by name within the module, through imports and through self"""

    def __init__(self, world):
        self.funcs, self.direct, self.calls, self.byname = {}, {}, {}, {}
        for mod, m in world.I.mods.items():
            if m.tree is None:
                continue
            imp = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    for a in n.names:
                        imp[a.asname or a.name] = n.module + "." + a.name
            self.walk(m.tree, [], mod, m, imp, None)

    def walk(self, n, q, mod, m, imp, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                self.walk(c, q + [c.name], mod, m, imp, c.name)
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                k = (mod, ".".join(q + [c.name]))
                self.funcs[k] = (m.path, c.lineno)
                self.byname.setdefault((mod, c.name), []).append(k)
                self.scan(k, c, mod, imp)
                self.walk(c, q + [c.name], mod, m, imp, None)
            else:
                self.walk(c, q, mod, m, imp, cls)

    def scan(self, k, f, mod, imp):
        d, cs = {}, set()
        for n in ast.walk(f):
            p = dotted(n)
            if p is None:
                continue
            head, _, rest = p.partition(".")
            full = (imp[head] + ("." + rest if rest else "")) if head in imp else None
            if full is not None:
                for cat, pre in SOURCES.items():
                    if any(full == s or s.endswith(".") and full.startswith(s) for s in pre) and full not in ("numpy.random.seed", "random.seed"):
                        d.setdefault(cat, (full, n.lineno))
                tm, _, tn = full.rpartition(".")
                cs.add((tm, tn))
            else:
                cs.add((mod, p[5:] if p.startswith("self.") else p))
        self.direct[k], self.calls[k] = d, cs

    def closure(self):
        """{function: {category: (source, function using it, line)}}"""
        r = {k: {c: (s, k, ln) for c, (s, ln) in d.items()} for k, d in self.direct.items()}
        changed = True
        while changed:
            changed = False
            for k, cs in self.calls.items():
                for tm, tn in cs:
                    if "." in tn:
                        continue
                    for g in self.byname.get((tm, tn), ()):
                        for c, v in r[g].items():
                            if c not in r[k]:
                                r[k][c] = v
                                changed = True
        return r


def dotted(n):
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    return ".".join([n.id] + out[::-1])


def nondeterminism(code, ref, a):
    """functions that reach random draws, the clock or process identity although their reviewed version does not"""
    tc, tr = Tree(code), Tree(ref)
    rc, rr = tc.closure(), tr.closure()
    out = []
    for k in sorted(rc):
        new = {c: v for c, v in rc[k].items() if k in rr and c not in rr[k]}
        # a function the reviewed tree does not have is judged through the ones that call it
        path, line = tc.funcs[k]
        r = {"key": "reaches:" + k[0] + ":" + k[1], "status": "violated" if new else "discharged", "functions": [k],
             "title": "reaches no random draws, clock or process identity beyond the documented ones",
             "where": "%s:%d %s" % (os.path.relpath(path, a.repo), line, k[1])}
        if new:
            r["why"] = "; ".join("%s (%s, line %d of %s)" % (c, s, ln, g[1]) for c, (s, g, ln) in new.items())
        out.append(r)
    return out


RULES = {"C22": [nondeterminism]}


def run(prop, code, ref, a):
    return [r for f in RULES.get(prop, []) for r in f(code, ref, a)]
