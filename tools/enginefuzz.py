#!/usr/bin/env python3
"""developer tool: random small programs, abstract evaluation against CPython (validates the analyser, never the repository)"""
import os, sys, random, itertools, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obs, terms as t
from sa.terms import mk

class G:
    def __init__(self, r):
        self.r = r; self.depth = 0; self.loops = 0; self.infun = 0; self.n = 0
    def c(self, *xs): return self.r.choice(xs)
    def cond(self):
        r = self.r.random()
        if r < .45: return self.c("A", "B", "C", "not A", "A and B", "B or C", "not (A or C)")
        return self.c("x > 2", "x == y", "len(L) > 1", "L", "'p' in D", "D", "s == 'a'", "x in L", "not L", "len(D) == 1", "x != 3", "s", "s.startswith('a')", "y is None", "x", "any(v > 2 for v in L)", "all(L)", "2 in L", "isinstance(y, int)")
    def num(self):
        return self.c("1", "2", "3", "x", "x + 1", "len(L)", "D.get('p', 4)", "x * 2", "sum(L)", "max([x, 1])", "f(x)", "(5 if A else x)", "len(s)", "L[0] if L else 7", "D['q'] if 'q' in D else 8", "x - 1", "g(x, b=B)")
    def key(self): return self.c("'p'", "'q'", "'r'", "s")
    def lst(self):
        return self.c("[]", "[%s]" % self.num(), "[%s, %s]" % (self.num(), self.num()), "[v + 1 for v in L]", "[v for v in L if v > 1]", "L + [%s]" % self.num(),
            "sorted(L)", "list(L)", "L[1:]", "L[::-1]", "list(D.values())", "[D[k] for k in D]", "[v for v in range(3)]", "L[:2]", "M", "[i * v for i, v in enumerate(L)]", "[a + b for a, b in zip(L, M)]", "list(h())", "L[-2:]", "L * 2", "list(map(f, L))", "[v for k, v in D.items() if k != 'p']")
    def dct(self):
        return self.c("{}", "{'p': %s}" % self.num(), "{'q': %s, 'r': %s}" % (self.num(), self.num()), "dict(D)", "{k: v for k, v in D.items() if v}", "dict(zip(['p', 'q', 'r'], L))", "dict(D, p=%s)" % self.num(), "{**D, 'r': 1}")
    def st(self, ind):
        p = "    " * ind
        r = self.r.random()
        if r < .12: return [p + "x = " + self.num()]
        if r < .16: return [p + "y = " + self.c("None", self.num())]
        if r < .22: return [p + "L = " + self.lst()]
        if r < .25: return [p + "M = " + self.c(self.lst(), "L")]
        if r < .29: return [p + "D = " + self.dct()]
        if r < .33: return [p + "s = " + self.c("'a'", "'ab'", "''", "s + 'b'", "'_'.join(['a', s])", "s.replace('a', 'c')", "s.upper()", "'%s_%d' % (s, x)", "'{}-{}'.format(s, x)", "f'{s}{x}'", "str(x)")]
        if r < .42: return [p + self.c("L.append(%s)", "L.insert(0, %s)", "M.append(%s)", "L.extend([%s])", "L += [%s]") % self.num()]
        if r < .48: return [p + self.c("D[%s] = %s" % (self.key(), self.num()), "D.setdefault(%s, %s)" % (self.key(), self.num()), "D.update({%s: %s})" % (self.key(), self.num()), "D.pop(%s, None)" % self.key(), "D.update(p=%s)" % self.num())]
        if r < .51: return [p + self.c("x += %s", "x -= %s", "x *= %s") % self.num()]
        if r < .54: return [p + "if L:", p + "    " + self.c("L[0] = " + self.num(), "x = L.pop()", "L[-1] += 1", "del L[0]", "x, *M = L")]
        if r < .57: return [p + self.c("o.a = " + self.num(), "x = o.a", "o.inc()", "x = o.get()", "o.l.append(%s)" % self.num(), "L = o.l", "x = o.p", "x = getattr(o, 'zz', x)", "o.zz = x")]
        if r < .60: return [p + "x = " + self.c("f(%s)" % self.num(), "g(%s)" % self.num(), "g(%s, b=%s)" % (self.num(), self.cond()), "k(L)", "q(%s, %s)" % (self.num(), self.num()), "acc(x)")]
        if ind > 4: return [p + "x = " + self.num()]
        if r < .78:
            out = [p + "if %s:" % self.cond()] + self.block(ind + 1)
            if self.r.random() < .3: out += [p + "elif %s:" % self.cond()] + self.block(ind + 1)
            if self.r.random() < .5: out += [p + "else:"] + self.block(ind + 1)
            return out
        if r < .90 and self.loops < 2:
            self.loops += 1
            out = [p + "for v%d in %s:" % (self.loops, self.c("[1, 2, 3]", "list(L)[:3]", "range(2)", "['p', 'q']", "list(D)", "M[:2]"))] + self.block(ind + 1, True)
            self.loops -= 1
            if self.r.random() < .2 and not self.loops: out += [p + "else:"] + self.block(ind + 1)
            return out
        if r < .94:
            return [p + "try:"] + self.block(ind + 1) + [p + "    x = " + self.c("D['p']", "L[5]", "o.nope", "1 + s")] + [p + "except %s:" % self.c("KeyError", "(KeyError, IndexError, AttributeError, TypeError)", "Exception")] + self.block(ind + 1)
        if r < .97 and self.loops:
            return [p + "if %s:" % self.cond(), p + "    " + self.c("break", "continue")]
        return [p + "if %s:" % self.cond(), p + "    return x, L, D, s"]
    def block(self, ind, loop=False):
        out = []
        for _ in range(self.r.randint(1, 3)): out += self.st(ind)
        return out
    def prog(self):
        out = ["def f(a):", "    if a > 2:", "        return a - 1", "    return a + 1",
               "def g(a, b=False, *c, **d):", "    if b:", "        return len(c) + a", "    for i in range(2):", "        if a == i:", "            return 10 + i", "    return a * 2",
               "def h():", "    yield 1", "    if A:", "        yield 2", "    for i in [3, 4]:", "        yield i",
               "def k(l):", "    if l:", "        l.append(9)", "    return len(l)",
               "def q(*a):", "    return sum(a) + len(a)",
               "def mkacc():", "    n = [0]", "    def acc(v):", "        n[0] += 1", "        return n[0] + v", "    return acc", "acc = mkacc()",
               "class O:", "    z = 5", "    def __init__(self):", "        self.a = 1", "        self.l = []", "    def inc(self):", "        self.a += self.z", "    def get(self):", "        return self.a if self.a < 9 else 9", "    @property", "    def p(self):", "        return len(self.l) + self.a",
               "def main():", "    x = 1", "    y = None", "    L = [1, 2]", "    M = []", "    D = {'p': 1}", "    s = 'a'", "    o = O()"]
        for _ in range(self.r.randint(3, 8)): out += self.st(1)
        out += ["    return x, y, L, M, list(D.items()), s, o.a, o.l", "main()"]
        return "\n".join(out)

class Skip(Exception): pass
def pyev(x):
    """value of a closed term"""
    o, a = x.op, x.args
    if o == "num": return int(a[0]) if a[0].denominator == 1 else a[0]
    if o == "str": return a[0]
    if o == "none": return None
    if o == "true": return True
    if o == "false": return False
    if o == "list": return [pyev(y) for y in a]
    if o == "tuple": return tuple(pyev(y) for y in a)
    if o == "dict": return {pyev(a[i]): pyev(a[i + 1]) for i in range(0, len(a), 2)}
    if o == "ite": return pyev(a[1]) if pyev(a[0]) else pyev(a[2])
    if o == "and": return all(pyev(y) for y in a)
    if o == "or": return any(pyev(y) for y in a)
    if o == "not": return not pyev(a[0])
    if o == "truth": return bool(pyev(a[0]))
    if o == "mono":
        r = a[0]
        for i in range(1, len(a), 2): r = r * pyev(a[i]) ** pyev(a[i + 1])
        return int(r) if r == int(r) else r
    if o == "poly":
        return sum(pyev(y) for y in a)
    if o == "eq0": return pyev(a[0]) == 0
    if o == "pos": return pyev(a[0]) > 0
    if o == "nneg": return pyev(a[0]) >= 0
    if o == "eq": return pyev(a[0]) == pyev(a[1])
    if o == "is": return pyev(a[0]) is pyev(a[1])
    if o == "in": return pyev(a[0]) in pyev(a[1])
    if o == "len": return len(pyev(a[0]))
    if o == "cat":
        r = []
        for y in a: r = r + list(pyev(y))
        return r
    if o == "scat": return "".join(str(pyev(y)) for y in a)
    if o == "at":
        return pyev(a[0])[pyev(a[1])]
    if o == "slice": return slice(*[pyev(y) for y in a])
    if o == "ldel":
        r = list(pyev(a[0])); del r[pyev(a[1])]; return r
    if o == "pymax": return max(pyev(y) for y in a)
    if o == "pymin": return min(pyev(y) for y in a)
    if o == "pysum": return sum(pyev(a[0]))
    if o == "sorted" and len(a) == 1: return sorted(pyev(a[0]))
    if o == "rep": return pyev(a[0]) * pyev(a[1])
    if o == "dset":
        d = dict(pyev(a[0])); d[pyev(a[1])] = pyev(a[2]); return d
    if o == "ddel":
        d = dict(pyev(a[0])); d.pop(pyev(a[1]), None); return d
    if o == "keys": return list(pyev(a[0]))
    if o == "values": return list(pyev(a[0]).values())
    if o == "items": return list(pyev(a[0]).items())
    if o == "isinst": raise Skip(o)
    raise Skip(o)

def conv(v):
    if v is None: return t.NONE
    if v is True: return t.TRUE
    if v is False: return t.FALSE
    if isinstance(v, int): return t.num(v)
    if isinstance(v, str): return t.s(v)
    if isinstance(v, tuple): return t.tup(*map(conv, v))
    if isinstance(v, list): return t.lst(*map(conv, v))
    if isinstance(v, dict): return mk("dict", *[z for kv in v.items() for z in map(conv, kv)])
    raise TypeError(v)

def main():
    seed0, n = int(sys.argv[1]), int(sys.argv[2])
    W = obs.World("/repo")
    bad = und = 0
    whys = {}; skips = {}; nskip = 0
    for seed in range(seed0, seed0 + n):
        src = G(random.Random(seed)).prog()
        pre = "_kindof(A, 'bool')\n_kindof(B, 'bool')\n_kindof(C, 'bool')\n"
        try:
            r = obs.run(W, pre + src)
        except RecursionError:
            und += 1; continue
        except Exception as e:
            print("CRASH seed", seed, type(e).__name__, e); bad += 1; continue
        if r.undecided:
            und += 1; whys[r.undecided] = whys.get(r.undecided, 0) + 1; continue
        body = ast.parse(src)
        body.body[-1] = ast.Assign(targets=[ast.Name("RET", ast.Store())], value=body.body[-1].value)
        code = compile(ast.fix_missing_locations(body), "x", "exec")
        for a, b, c in itertools.product([True, False], repeat=3):
            ns = {"A": a, "B": b, "C": c}
            exc = None
            try:
                exec(code, ns)
            except Exception as e:
                exc = type(e).__name__
            m = {}
            for nm, val in ns.items():
                if nm in "ABC":
                    m[t.truth(t.sym(nm))] = t.TRUE if val else t.FALSE
                    m[t.sym(nm)] = t.TRUE if val else t.FALSE
            try:
                gr = [x for g, x in r.raises if pyev(t.subst(g, m))]
                got = None if gr or r.ret.op == "noreturn" else pyev(t.subst(r.ret, m))
            except Skip as e:
                skips[e.args[0]] = skips.get(e.args[0], 0) + 1; nskip += 1; break
            except Exception as e:
                if exc == type(e).__name__: continue
                if exc is not None: print("MISMATCH seed", seed, (a, b, c), "python raises", exc, "engine term fails", type(e).__name__)
                else: print("MISMATCH seed", seed, (a, b, c), "term evaluation fails", type(e).__name__, e, t.show(t.subst(r.ret, m))[:300])
                bad += 1; break
            if exc is not None:
                if not gr or exc not in t.show(gr[0]):
                    print("MISMATCH seed", seed, (a, b, c), "python raises", exc, "engine", [t.show(x) for x in gr], got); bad += 1; break
            elif gr or got != ns["RET"]:
                print("MISMATCH seed", seed, (a, b, c), "\n   py ", ns["RET"], "\n   eng", got, [t.show(x) for x in gr]); bad += 1; break
    print("programs", n, "bad", bad, "undecided", und, "skipped", nskip, skips, sorted(whys.items(), key=lambda x: -x[1])[:10])

if len(sys.argv) > 3:
    print(G(random.Random(int(sys.argv[1]))).prog()); 
main()
