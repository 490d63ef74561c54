"""constant propagation for small arrays whose shape is known: an array term with every entry a known scalar term.
Entries may be arbitrary scalar value graphs; shapes, index arrays and masks are constants."""
from . import terms as t
from .terms import mk, TRUE, FALSE, NONE, ZERO, ONE, FULL

LIM = 16
TOTAL = 300


class Lit:
    def __init__(self, dims, flat):
        self.dims, self.flat = tuple(dims), list(flat)

    @property
    def nd(self):
        return len(self.dims)

    def term(self):
        r = self.whole()
        return r if r is not None else self.plain()

    def whole(self):
        """every entry of one matrix, in place: the matrix itself"""
        if self.nd != 2 or not self.flat or self.flat[0].op != "at" or self.flat[0].args[0].op != "INV" or self.dims[0] != self.dims[1]:
            return None
        A = self.flat[0].args[0]
        n = self.dims[0]
        for i in range(n):
            for j in range(n):
                if self.flat[i * n + j] is not t.at(A, t.tup(t.num(i), t.num(j))):
                    return None
        L = t.LITS.of(A.args[0]) if t.LITS is not None else None
        return A if L is not None and L.dims == self.dims else None

    def plain(self):
        return mk("array", self.nest(self.dims, self.flat)) if self.dims else self.flat[0]

    def nest(self, dims, flat):
        if len(dims) == 1:
            return t.lst(*flat)
        k = 1
        for d in dims[1:]:
            k *= d
        return t.lst(*[self.nest(dims[1:], flat[i * k:(i + 1) * k]) for i in range(dims[0])])

    def get(self, ij):
        p = 0
        for i, d in zip(ij, self.dims):
            p = p * d + i
        return self.flat[p]


def size(dims):
    k = 1
    for d in dims:
        k *= d
    return k


class Lits:
    def __init__(self, ext):
        self.ext = ext
        self.memo = {}

    def scalar(self, x):
        if x.op in ("num", "true", "false", "str", "bytes", "none", "LOGDET", "npsum"):
            return True
        if x.op == "sym" and x.args[0] in ("nan", "inf"):
            return True
        if x.op in ("array", "zeros", "ones", "list", "tuple", "eye", "store", "dict", "slice", "INV", "SOLVE", "chofac", "ref", "T", "new", "pv"):
            return False
        return self.ext.scalarish(x) or self.ext.ndim(x) is ZERO

    def dimsof(self, sh):
        ks = sh.args if sh.op == "tuple" else (sh,)
        if not ks or len(ks) > 4 or not all(t.isint(k) and 0 <= t.numval(k) <= LIM for k in ks):
            return None
        d = [int(t.numval(k)) for k in ks]
        return d if size(d) <= TOTAL else None

    def of(self, x):
        """Lit of a term, or None"""
        if x.op == "array":
            return self.nested(x.args[0])
        if x.op in ("zeros", "ones"):
            d = self.dimsof(x.args[-1])
            return None if d is None else Lit(d, [ZERO if x.op == "zeros" else ONE] * size(d))
        if x.op == "eye":
            d = self.dimsof(t.tup(x.args[0], x.args[0]))
            return None if d is None else Lit(d, [ONE if i == j else ZERO for i in range(d[0]) for j in range(d[1])])
        if x.op == "random" and x.args[0] in ("np.random.randn", "np.random.rand") and len(x.args) in (3, 4):
            d = self.dimsof(t.tup(*x.args[2:]))
            if d is None:
                return None
            import itertools
            return Lit(d, [t.at(x, t.num(p[0]) if len(p) == 1 else t.tup(*[t.num(i) for i in p])) for p in itertools.product(*[range(k) for k in d])])
        if x.op == "random" and x.args[0] in ("np.random.uniform", "np.random.normal") and len(x.args) == 5 and all(self.scalar(z) for z in x.args[2:4]):
            d = self.dimsof(x.args[4] if x.args[4].op == "tuple" else t.tup(x.args[4]))
            if d is not None and len(d) == 1 and d[0] <= LIM:
                return Lit(d, [t.at(x, t.num(i)) for i in range(d[0])])
        if x.op == "diag" and len(x.args) == 1:
            v = self.of(x.args[0])
            if v is not None and v.nd == 1 and v.dims[0] <= LIM:
                n = v.dims[0]
                return Lit((n, n), [v.flat[i] if i == j else ZERO for i in range(n) for j in range(n)])
        return None

    def symmetric(self, x):
        A = self.of(x)
        if A is None or A.nd != 2 or A.dims[0] != A.dims[1]:
            return False
        n = A.dims[0]
        return all(A.get((i, j)) is A.get((j, i)) for i in range(n) for j in range(i))

    def nested(self, y):
        if y.op != "list":
            return None
        if not y.args:
            return Lit((0,), [])
        if len(y.args) > 4 * LIM:
            return None
        if all(self.scalar(c) for c in y.args):
            return Lit((len(y.args),), y.args)
        sub = []
        for c in y.args:
            if c.op == "list":
                s = self.nested(c)
            elif c.op in ("array", "zeros", "ones"):
                s = self.of(c)
            else:
                return None
            if s is None:
                return None
            sub.append(s)
        if len({s.dims for s in sub}) != 1:
            return None
        r = Lit((len(sub),) + sub[0].dims, [e for s in sub for e in s.flat])
        return r if r.nd <= 4 and len(r.flat) <= TOTAL else None

    # ---------------------------------------------------------------- indexing
    def index(self, dims, idx):
        """(positions, result dims): list of source coordinates in result order; None when not constant"""
        ks = list(idx.args) if idx.op == "tuple" else [idx]
        if any(k is t.ELL for k in ks):
            i = next(j for j, k in enumerate(ks) if k is t.ELL)
            n = sum(1 for k in ks if k is not NONE) - 1
            ks = ks[:i] + [FULL] * (len(dims) - n) + ks[i + 1:]
        if idx.op == "call" and idx.args[0] == "np.ix_":
            axes = []
            for k, n in zip(idx.args[1:], dims):
                a = self.axis(k, n)
                if a is None or isinstance(a, int):
                    return None
                axes.append(a)
            if len(axes) != len(dims):
                return None
            pos = [()]
            for a in axes:
                pos = [p + (i,) for p in pos for i in a]
            return pos, [len(a) for a in axes]
        if len(ks) == len(dims) >= 2:
            # index arrays that broadcast against each other
            ms = [self.of(k) if k.op in ("array", "zeros", "ones") else (Lit((), [k]) if t.isint(k) else None) for k in ks]
            if all(m is not None for m in ms) and any(m.nd > 1 for m in ms) and all(t.isint(e) for m in ms for e in m.flat):
                n = max(m.nd for m in ms)
                ds = [[1] * (n - m.nd) + list(m.dims) for m in ms]
                rd = [max(c) for c in zip(*ds)]
                bs = [self.bcast(m, rd) for m in ms]
                if any(b is None for b in bs):
                    return None
                pos = []
                for c in zip(*[b.flat for b in bs]):
                    c = tuple(int(t.numval(e)) for e in c)
                    if any(not -k <= e < k for e, k in zip(c, dims)):
                        return None
                    pos.append(tuple(e % k for e, k in zip(c, dims)))
                return pos, rd
        axes, shape, d = [], [], 0
        adv = []
        for k in ks:
            if k is NONE:
                shape.append(("new", None))
                continue
            if d >= len(dims):
                return None
            if k.op == "slice":
                if not all(v is NONE or t.isint(v) for v in k.args):
                    return None
                v = [None if z is NONE else int(t.numval(z)) for z in k.args]
                axes.append(list(range(dims[d]))[slice(*v)])
                shape.append(("ax", d))
            else:
                m = self.of(k) if k.op in ("array", "zeros", "ones") else (self.nested(k) if k.op == "list" else None)
                if m is not None and m.nd == 2 and list(m.dims) == list(dims) and len(ks) == 1:
                    if not all(c in (TRUE, FALSE) for c in m.flat):
                        return None
                    w = dims[1]
                    pos = [(i // w, i % w) for i, c in enumerate(m.flat) if c is TRUE]
                    return pos, [len(pos)]
                a = self.axis(k, dims[d])
                if a is None:
                    return None
                axes.append(a)
                shape.append(("int", d) if isinstance(a, int) else ("adv", d))
                if not isinstance(a, int):
                    adv.append(d)
            d += 1
        while d < len(dims):
            axes.append(list(range(dims[d])))
            shape.append(("ax", d))
            d += 1
        if len(adv) > 1:
            # paired index arrays, nothing else varying
            n = {len(axes[a]) for a in adv}
            if len(n - {1}) > 1 or any(s in ("ax", "new") for s, _ in shape):
                return None
            m = max(n)
            pos = [tuple(axes[j] if isinstance(axes[j], int) else axes[j][i if len(axes[j]) > 1 else 0] for j in range(len(dims))) for i in range(m)]
            return pos, [m]
        if adv and any(s == "int" for s, _ in shape) and any(s in ("ax", "new") for s, _ in shape):
            return None
        pos = [()]
        for a in axes:
            pos = [p + (i,) for p in pos for i in ([a] if isinstance(a, int) else a)]
        rd = []
        for s, j in shape:
            if s == "new":
                rd.append(1)
            elif s in ("ax", "adv"):
                rd.append(len(axes[j]))
        return pos, rd

    def axis(self, k, n):
        if t.isint(k):
            i = int(t.numval(k))
            if not -n <= i < n:
                return None
            return i % n
        m = self.of(k) if k.op in ("array", "zeros", "ones") else (self.nested(k) if k.op == "list" else None)
        if m is None or m.nd != 1:
            return None
        if m.flat and all(c in (TRUE, FALSE) for c in m.flat):
            if len(m.flat) != n:
                return None
            return [i for i, c in enumerate(m.flat) if c is TRUE]
        if not all(t.isint(c) for c in m.flat):
            return None
        r = [int(t.numval(c)) for c in m.flat]
        if any(not -n <= i < n for i in r):
            return None
        return [i % n for i in r]

    def badindex(self, dims, idx):
        """does numpy certainly refuse this index?"""
        ks = list(idx.args) if idx.op == "tuple" else [idx]
        if any(k is t.ELL or k is NONE or k is TRUE or k is FALSE for k in ks):
            return False
        ms = []
        for k in ks:
            if k.op == "slice" or t.isint(k):
                ms.append(None)
                continue
            m = self.of(k) if k.op in ("array", "zeros", "ones") else None
            if m is None or m.nd != 1:
                return False
            ms.append(m)
        if len(ks) > len(dims):
            return True
        for k, m, n in zip(ks, ms, dims):
            if m is None:
                if t.isint(k) and not -n <= int(t.numval(k)) < n:
                    return True
            elif m.flat and all(c in (TRUE, FALSE) for c in m.flat):
                if len(m.flat) != n:
                    return True
            elif m.flat and all(t.isint(c) for c in m.flat) and any(not -n <= int(t.numval(c)) < n for c in m.flat):
                return True
        return False

    def mismatch(self, da, db):
        """shapes that do not broadcast"""
        return any(p != q and 1 not in (p, q) for p, q in zip(reversed(list(da)), reversed(list(db))))

    def at(self, base, idx):
        if idx.op == "str":
            return None
        b = self.of(base)
        if b is None:
            return None
        r = self.index(b.dims, idx)
        if r is None:
            return None
        pos, rd = r
        if 0 in rd and len(rd) > 1:
            return None
        return Lit(rd, [b.get(p) for p in pos]).term()

    def store(self, base, idx, val):
        b = self.of(base)
        if b is None or idx.op == "str":
            return None
        r = self.index(b.dims, idx)
        if r is None:
            return None
        pos, rd = r
        v = self.of(val) if val.op in ("array", "zeros", "ones", "eye", "diag") else None
        if v is None and val.op in ("list", "tuple"):
            v = self.nested(t.lst(*val.args))
        if v is None:
            if self.scalar(val):
                v = Lit((), [val])
            else:
                sh = self.ext.shape(val)
                d = self.dimsof(sh) if sh.op == "tuple" and sh.args else None
                if d is None and val.op in ("INV", "chofac", "mapseq", "SOLVE", "dot") and self.ext.ndim(val) is t.num(len(rd)):
                    d = rd
                if d is None or list(d) != list(rd):
                    return None
                src = [()]
                for n in d:
                    src = [p + (t.num(i),) for p in src for i in range(n)]
                v = Lit(d, [t.at(val, t.tup(*p) if len(p) > 1 else p[0]) for p in src])
        e = self.bcast(v, rd)
        if e is None:
            return None
        out = Lit(b.dims, list(b.flat))
        for p, x in zip(pos, e.flat):
            q = 0
            for i, n in zip(p, b.dims):
                q = q * n + i
            out.flat[q] = x
        return out.term()

    def bcast(self, v, rd):
        d = list(v.dims)
        while len(d) > len(rd) and d and d[0] == 1:
            d = d[1:]
        if len(d) > len(rd):
            return None
        d = [1] * (len(rd) - len(d)) + d
        if any(a != b and a != 1 for a, b in zip(d, rd)):
            return None
        src = Lit(d, v.flat)
        pos = [()]
        for n in rd:
            pos = [p + (i,) for p in pos for i in range(n)]
        return Lit(rd, [src.get(tuple(i if m > 1 else 0 for i, m in zip(p, d))) if d else v.flat[0] for p in pos])

    # ---------------------------------------------------------------- elementwise
    def map(self, x, fn):
        v = self.of(x)
        return None if v is None else Lit(v.dims, [fn(e) for e in v.flat]).term()

    def zip(self, a, b, fn):
        """elementwise application with broadcasting; None when not constant shapes or no array among the two"""
        arr = ("array", "zeros", "ones", "eye", "diag")
        if a.op not in arr and b.op not in arr:
            return None
        va = self.of(a) if a.op in arr else (Lit((), [a]) if self.scalar(a) else None)
        vb = self.of(b) if b.op in arr else (Lit((), [b]) if self.scalar(b) else None)
        if va is None or vb is None:
            return None
        n = max(va.nd, vb.nd)
        da, db = [1] * (n - va.nd) + list(va.dims), [1] * (n - vb.nd) + list(vb.dims)
        rd = [max(p, q) if 0 not in (p, q) else 0 for p, q in zip(da, db)]
        xa, xb = self.bcast(va, rd), self.bcast(vb, rd)
        if xa is None or xb is None or len(xa.flat) > TOTAL:
            return None
        return Lit(rd, [fn(p, q) for p, q in zip(xa.flat, xb.flat)]).term()

    def elementwise(self, x):
        """sum of products of literal arrays and scalars, written out"""
        ms = t._monos(x)
        if not any(a.op in ("array", "zeros", "ones", "eye", "diag") for key in ms for a, _ in key):
            return None
        tot = None
        for key, c in ms.items():
            prod = Lit((), [t.num(c)])
            for a, e in key:
                v = self.of(a) if a.op in ("array", "zeros", "ones", "eye", "diag") else Lit((), [a]) if self.scalar(a) else None
                if v is None:
                    return None
                prod = self.both(prod, Lit(v.dims, [t.pow_(q, e) for q in v.flat]), t.mul)
                if prod is None:
                    return None
            tot = prod if tot is None else self.both(tot, prod, t.add)
            if tot is None:
                return None
        return tot

    def both(self, va, vb, fn):
        n = max(va.nd, vb.nd)
        da, db = [1] * (n - va.nd) + list(va.dims), [1] * (n - vb.nd) + list(vb.dims)
        rd = [max(p, q) if 0 not in (p, q) else 0 for p, q in zip(da, db)]
        xa, xb = self.bcast(va, rd), self.bcast(vb, rd)
        if xa is None or xb is None or len(xa.flat) > TOTAL:
            return None
        return Lit(rd, [fn(p, q) for p, q in zip(xa.flat, xb.flat)])

    def concat(self, vs, axis=0):
        vs = [v for v in vs]
        nd = {v.nd for v in vs}
        if len(nd) != 1:
            return None
        nd = nd.pop()
        if nd == 1 and axis == 0:
            return Lit((sum(v.dims[0] for v in vs),), [e for v in vs for e in v.flat])
        if nd == 2 and axis == 0:
            if len({v.dims[1] for v in vs}) != 1:
                return None
            return Lit((sum(v.dims[0] for v in vs), vs[0].dims[1]), [e for v in vs for e in v.flat])
        if nd == 2 and axis == 1:
            if len({v.dims[0] for v in vs}) != 1:
                return None
            rows = vs[0].dims[0]
            return Lit((rows, sum(v.dims[1] for v in vs)), [v.get((i, j)) for i in range(rows) for v in vs for j in range(v.dims[1])])
        return None

    def tr(self, v):
        if v.nd < 2:
            return v
        if v.nd == 2:
            n, m = v.dims
            return Lit((m, n), [v.get((i, j)) for j in range(m) for i in range(n)])
        return None

    def blockdiag(self, vs):
        vs = [Lit((1,) + v.dims, v.flat) if v.nd == 1 else v for v in vs]
        if any(v.nd != 2 for v in vs):
            return None
        n, m = sum(v.dims[0] for v in vs), sum(v.dims[1] for v in vs)
        if n * m > TOTAL:
            return None
        out = [[ZERO] * m for _ in range(n)]
        r = c = 0
        for v in vs:
            for i in range(v.dims[0]):
                for j in range(v.dims[1]):
                    out[r + i][c + j] = v.get((i, j))
            r += v.dims[0]
            c += v.dims[1]
        return Lit((n, m), [e for row in out for e in row])

    def expand(self, x):
        """small constant-shaped zeros, ones, identity and diagonal matrices written out"""
        memo = {}

        def go(y):
            if y in memo:
                return memo[y]
            r = y
            if y.op in ("zeros", "ones", "eye", "diag"):
                v = self.of(y)
                if v is not None and (y.op != "zeros" or y.args[0] == "d"):
                    r = v.term()
            if r is y and any(isinstance(a, t.T) for a in y.args):
                n = tuple(go(a) if isinstance(a, t.T) else a for a in y.args)
                if any(p is not q for p, q in zip(n, y.args)):
                    r = t.rebuild(y.op, n)
            if r.op in ("mono", "poly"):
                v = self.elementwise(r)
                if v is not None:
                    r = v.term()
            memo[y] = r
            return r
        return go(x)
