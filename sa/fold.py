"""constant propagation through numpy functions on small arrays of known shape.
Shape-only and linear functions accept any scalar entries; ordering and rounding functions need numeric entries (exact rationals)."""
import itertools
import math
from fractions import Fraction

from . import terms as t
from .terms import mk, TRUE, FALSE, NONE, ZERO, ONE
from .lit import Lit, size, TOTAL

TABLE = {}
NOARG = object()


class Stop(Exception):
    """not constant enough"""


def fold(*names, sig):
    def d(f):
        for n in names:
            TABLE[n] = (f, sig)
        return f
    return d


class F:
    """argument access for one call"""

    def __init__(self, ext, name, args, kw, sig):
        self.ext, self.ip, self.name = ext, ext.ip, name
        if len(args) > len(sig):
            raise Stop
        self.a = dict(zip(sig, args))
        for k, v in kw.items():
            if k not in sig or k in self.a:
                raise Stop
            self.a[k] = v

    def has(self, k):
        return k in self.a

    def raw(self, k, default=NOARG):
        if k not in self.a:
            if default is NOARG:
                raise Stop
            return default
        x = self.a[k]
        return self.ip.fz(x)

    def lit(self, k, arr=True):
        """array argument; a plain scalar gives a zero-dimensional Lit when arr is False"""
        v = tolit(self.ext, self.raw(k))
        if v is None or arr and v.nd == 0:
            raise Stop
        return v

    def int(self, k, default=NOARG):
        x = self.raw(k, default)
        if not isinstance(x, t.T):
            return x
        if x is NONE:
            return None
        if not t.isint(x):
            raise Stop
        return int(t.numval(x))

    def bool(self, k, default=False):
        x = self.raw(k, TRUE if default else FALSE)
        if x not in (TRUE, FALSE):
            raise Stop
        return x is TRUE

    def axis(self, v, default=None):
        k = self.int("axis", default)
        if k is None:
            return None
        if not -v.nd <= k < v.nd:
            self.ip.raise_(self.ip.exc("AxisError"))
        return k % v.nd

    def seq(self, k):
        x = self.ip.fz(self.ip.as_list(self.a[k])) if k in self.a else self.raw(k)
        if x.op == "array":
            x = x.args[0]
        if x.op not in ("list", "tuple") or not x.args:
            raise Stop
        vs = [tolit(self.ext, y) for y in x.args]
        if any(v is None for v in vs):
            raise Stop
        return vs


def tolit(ext, x):
    if x.op == "tuple":
        x = t.lst(*x.args)
    if x.op == "list":
        return ext.lits.nested(t.lst(*[t.lst(*y.args) if y.op == "tuple" else y for y in x.args]))
    if x.op in ("array", "zeros", "ones", "eye", "diag"):
        return ext.lits.of(x)
    if x.op in ("num", "true", "false", "str") or ext.lits.scalar(x):
        return Lit((), [x])
    return None


def n(e):
    if e.op == "num":
        return t.numval(e)
    if e in (TRUE, FALSE):
        return Fraction(1 if e is TRUE else 0)
    raise Stop


def nums(v):
    return [n(e) for e in v.flat]


def v1(es):
    return Lit((len(es),), es)


def N(xs):
    return [t.num(x) for x in xs]


def b2n(e):
    if t.is_bool(e) and e not in (TRUE, FALSE):
        raise Stop
    return ONE if e is TRUE else ZERO if e is FALSE else e


def lines(v, k):
    """{other coordinates: entries along axis k}"""
    rd = v.dims[:k] + v.dims[k + 1:]
    return rd, {q: [v.get(q[:k] + (j,) + q[k:]) for j in range(v.dims[k])] for q in itertools.product(*[range(m) for m in rd])}


def reduce_(v, k, fn):
    if k is None:
        return fn(list(v.flat))
    rd, ls = lines(v, k)
    return Lit(rd, [fn(ls[q]) for q in itertools.product(*[range(m) for m in rd])])


def maplines(v, k, fn):
    rd, ls = lines(v, k)
    out = {q: fn(es) for q, es in ls.items()}
    m = len(next(iter(out.values()))) if out else 0
    dims = v.dims[:k] + (m,) + v.dims[k + 1:]
    return Lit(dims, [out[p[:k] + p[k + 1:]][p[k]] for p in itertools.product(*[range(d) for d in dims])])


def done(r):
    if r is None:
        return None
    if isinstance(r, Lit):
        if r.nd == 0:
            return r.flat[0]
        if size(r.dims) > 2 * TOTAL:
            return None
        if 0 in r.dims and r.nd > 1:
            return None
        return r.term()
    if isinstance(r, t.T):
        return r
    if isinstance(r, (int, Fraction)):
        return t.num(r)
    if isinstance(r, list):
        rs = [done(x) for x in r]
        return None if any(x is None for x in rs) else t.lst(*rs)
    if isinstance(r, tuple):
        rs = [done(x) for x in r]
        return None if any(x is None for x in rs) else t.tup(*rs)
    return None


def call(ext, name, args, kw):
    e = TABLE.get(name)
    if e is None:
        return None
    try:
        f = F(ext, name, args, kw, e[1])
        return done(e[0](f))
    except Stop:
        return None


# ---------------------------------------------------------------- construction
@fold("np.linspace", sig=["start", "stop", "num", "endpoint", "dtype"])
def _linspace(f):
    if f.has("dtype") and not f.ext.isfloat(f.raw("dtype")):
        raise Stop
    a, b, k, e = f.raw("start"), f.raw("stop"), f.int("num", 50), f.bool("endpoint", True)
    if not (f.ext.lits.scalar(a) and f.ext.lits.scalar(b)) or k is None or not 0 <= k <= 64:
        raise Stop
    d = k - 1 if e else k
    return v1([t.add(a, t.mul(t.num(Fraction(i, d) if d else 0), t.sub(b, a))) for i in range(k)])


@fold("np.logspace", sig=["start", "stop", "num", "endpoint", "base"])
def _logspace(f):
    r = _linspace(f)
    b = f.raw("base", t.num(10))
    return Lit(r.dims, [t.pow_(b, e) for e in r.flat])


@fold("np.geomspace", sig=["start", "stop", "num", "endpoint"])
def _geomspace(f):
    a, b, k = f.raw("start"), f.raw("stop"), f.int("num", 50)
    if k is None or not 1 < k <= 64 or f.has("endpoint"):
        raise Stop
    return v1([t.mul(a, t.pow_(t.div(b, a), t.num(Fraction(i, k - 1)))) for i in range(k)])


@fold("np.arange", sig=["start", "stop", "step", "dtype"])
def _arange(f):
    if f.has("dtype"):
        d = f.raw("dtype")
        if not (f.ext.isfloat(d) or d.op == "bi" and d.args[0] == "int"):
            raise Stop
    if f.has("stop") and f.raw("stop") is not NONE:
        a, b = n(f.raw("start")), n(f.raw("stop"))
    else:
        a, b = Fraction(0), n(f.raw("start"))
    s = n(f.raw("step", ONE))
    if not s:
        raise Stop
    k = max(0, math.ceil((b - a) / s))
    if k > 64:
        raise Stop
    return v1(N([a + i * s for i in range(k)]))


@fold("np.full", sig=["shape", "fill_value", "dtype"])
def _full(f):
    d = f.ext.lits.dimsof(f.raw("shape"))
    if d is None or f.has("dtype") and not f.ext.isfloat(f.raw("dtype")):
        raise Stop
    v = f.lit("fill_value", arr=False)
    r = f.ext.lits.bcast(v, d)
    if r is None:
        raise Stop
    return r


@fold("np.full_like", sig=["a", "fill_value"])
def _full_like(f):
    v, x = f.lit("a"), f.lit("fill_value", arr=False)
    r = f.ext.lits.bcast(x, list(v.dims))
    if r is None:
        raise Stop
    return r


# ---------------------------------------------------------------- linear, entry by entry
@fold("np.diff", sig=["a", "n", "axis", "prepend", "append"])
def _diff(f):
    v, k = f.lit("a"), f.int("n", 1)
    ax = f.axis(v, -1)
    if f.has("prepend") or f.has("append"):
        if v.nd != 1:
            raise Stop
        pre = f.lit("prepend", arr=False).flat if f.has("prepend") else []
        app = f.lit("append", arr=False).flat if f.has("append") else []
        v = v1(list(pre) + list(v.flat) + list(app))
    for _ in range(k):
        v = maplines(v, ax, lambda es: [t.sub(b2n(q), b2n(p)) for p, q in zip(es, es[1:])])
    return v


@fold("np.ediff1d", sig=["ary"])
def _ediff(f):
    es = f.lit("ary").flat
    return v1([t.sub(q, p) for p, q in zip(es, es[1:])])


def cum(op, z):
    def g(es):
        out, c = [], z
        for e in es:
            c = op(c, b2n(e))
            out.append(c)
        return out
    return g


@fold("np.cumsum", sig=["a", "axis"])
def _cumsum(f):
    v = f.lit("a")
    k = f.axis(v)
    g = cum(t.add, ZERO)
    return v1(g(v.flat)) if k is None else maplines(v, k, g)


@fold("np.cumprod", sig=["a", "axis"])
def _cumprod(f):
    v = f.lit("a")
    k = f.axis(v)
    g = cum(t.mul, ONE)
    return v1(g(v.flat)) if k is None else maplines(v, k, g)


def mean(es):
    if not es:
        raise Stop
    return t.mul(t.num(Fraction(1, len(es))), t.add(ZERO, *[b2n(e) for e in es]))


@fold("np.mean", "np.average", sig=["a", "axis"])
def _mean(f):
    v = f.lit("a", arr=False)
    return reduce_(v, f.axis(v), mean)


def var(dd):
    def g(es):
        if len(es) <= dd:
            raise Stop
        m = mean(es)
        return t.mul(t.num(Fraction(1, len(es) - dd)), t.add(ZERO, *[t.pow_(t.sub(b2n(e), m), t.num(2)) for e in es]))
    return g


@fold("np.var", sig=["a", "axis", "dtype", "out", "ddof"])
def _var(f):
    v = f.lit("a")
    return reduce_(v, f.axis(v), var(f.int("ddof", 0)))


@fold("np.std", sig=["a", "axis", "dtype", "out", "ddof"])
def _std(f):
    v = f.lit("a")
    g = var(f.int("ddof", 0))
    return reduce_(v, f.axis(v), lambda es: t.pow_(g(es), t.HALF))


@fold("np.prod", sig=["a", "axis"])
def _prod(f):
    v = f.lit("a")
    return reduce_(v, f.axis(v), lambda es: t.mul(ONE, *[b2n(e) for e in es]))


@fold("np.trace", sig=["a"])
def _trace(f):
    v = f.lit("a")
    if v.nd != 2:
        raise Stop
    return t.add(ZERO, *[v.get((i, i)) for i in range(min(v.dims))])


@fold("np.kron", sig=["a", "b"])
def _kron(f):
    a, b = f.lit("a"), f.lit("b")
    if a.nd != 2 or b.nd != 2:
        raise Stop
    d = (a.dims[0] * b.dims[0], a.dims[1] * b.dims[1])
    return Lit(d, [t.mul(a.get((i // b.dims[0], j // b.dims[1])), b.get((i % b.dims[0], j % b.dims[1]))) for i in range(d[0]) for j in range(d[1])])


@fold("np.cross", sig=["a", "b"])
def _cross(f):
    a, b = f.lit("a"), f.lit("b")
    if a.dims != (3,) or b.dims != (3,):
        raise Stop
    x, y = a.flat, b.flat
    return v1([t.sub(t.mul(x[i], y[j]), t.mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))])


def det(m):
    if len(m) == 1:
        return m[0][0]
    out = []
    for j in range(len(m)):
        if m[0][j] is ZERO:
            continue
        d = t.mul(m[0][j], det([r[:j] + r[j + 1:] for r in m[1:]]))
        out.append(d if j % 2 == 0 else t.neg(d))
    return t.add(ZERO, *out)


@fold("np.linalg.det", sig=["a"])
def _det(f):
    v = f.lit("a")
    if v.nd != 2 or v.dims[0] != v.dims[1] or not 0 < v.dims[0] <= 4:
        raise Stop
    k = v.dims[0]
    return det([[v.get((i, j)) for j in range(k)] for i in range(k)])


# ---------------------------------------------------------------- shape only
@fold("np.repeat", sig=["a", "repeats", "axis"])
def _repeat(f):
    v = f.lit("a", arr=False)
    r = f.lit("repeats", arr=False)
    k = f.axis(v)
    rs = [int(x) for x in nums(r)]
    if any(x < 0 for x in rs):
        raise Stop

    def g(es):
        m = rs * len(es) if len(rs) == 1 else rs
        if len(m) != len(es):
            f.ip.raise_(f.ip.exc("ValueError"))
        return [e for e, c in zip(es, m) for _ in range(c)]
    return v1(g(v.flat)) if k is None else maplines(v, k, g)


@fold("np.tile", sig=["A", "reps"])
def _tile(f):
    v = f.lit("A", arr=False)
    r = [int(x) for x in nums(f.lit("reps", arr=False))]
    nd = max(v.nd, len(r))
    d = [1] * (nd - v.nd) + list(v.dims)
    r = [1] * (nd - len(r)) + r
    src = Lit(d, v.flat)
    rd = [a * b for a, b in zip(d, r)]
    if size(rd) > TOTAL:
        raise Stop
    return Lit(rd, [src.get(tuple(i % m for i, m in zip(p, d))) for p in itertools.product(*[range(m) for m in rd])])


@fold("np.roll", sig=["a", "shift", "axis"])
def _roll(f):
    v, s = f.lit("a"), f.int("shift")
    k = f.axis(v)

    def g(es):
        return [es[(i - s) % len(es)] for i in range(len(es))]
    return Lit(v.dims, g(v.flat)) if k is None else maplines(v, k, g)


@fold("np.take", sig=["a", "indices", "axis"])
def _take(f):
    v, ix = f.lit("a"), f.lit("indices", arr=False)
    k = f.axis(v)
    if ix.nd > 1 or not all(t.isint(e) for e in ix.flat):
        raise Stop
    js = [int(x) for x in nums(ix)]
    m = v.dims[k] if k is not None else len(v.flat)
    if any(not -m <= j < m for j in js):
        raise Stop
    if k is None:
        return Lit(ix.dims, [v.flat[j] for j in js])
    if ix.nd == 0:
        return reduce_(v, k, lambda es: es[js[0]])
    return maplines(v, k, lambda es: [es[j] for j in js])


@fold("np.append", sig=["arr", "values", "axis"])
def _append(f):
    a, b = f.lit("arr", arr=False), f.lit("values", arr=False)
    if f.has("axis") and f.raw("axis") is not NONE:
        r = f.ext.lits.concat([a, b], f.axis(a))
        if r is None:
            raise Stop
        return r
    return v1(list(a.flat) + list(b.flat))


@fold("np.insert", sig=["arr", "obj", "values", "axis"])
def _insert(f):
    a, i, x = f.lit("arr"), f.int("obj"), f.lit("values", arr=False)
    if a.nd != 1 or f.has("axis") and f.axis(a) != 0 or i is None or not -len(a.flat) <= i <= len(a.flat):
        raise Stop
    i = i % len(a.flat) if i < 0 else i
    return v1(list(a.flat[:i]) + list(x.flat) + list(a.flat[i:]))


@fold("np.delete", sig=["arr", "obj", "axis"])
def _delete(f):
    a, ix = f.lit("arr"), f.lit("obj", arr=False)
    k = f.axis(a)
    if k is None:
        if a.nd != 1:
            raise Stop
        k = 0
    if ix.flat and all(e in (TRUE, FALSE) for e in ix.flat):
        js = {i for i, e in enumerate(ix.flat) if e is TRUE}
    else:
        js = {int(x) % a.dims[k] for x in nums(ix)}
    return maplines(a, k, lambda es: [e for i, e in enumerate(es) if i not in js])


@fold("np.compress", sig=["condition", "a", "axis"])
def _compress(f):
    c, a = f.lit("condition"), f.lit("a")
    k = f.axis(a)
    if any(e not in (TRUE, FALSE) for e in c.flat) or k is None and a.nd != 1:
        raise Stop
    return maplines(a, k or 0, lambda es: [e for e, m in zip(es, c.flat) if m is TRUE])


def cuts(f, even):
    v = f.lit("ary")
    k = f.axis(v, 0)
    s = f.lit("indices_or_sections", arr=False)
    m = v.dims[k]
    if s.nd == 0:
        c = int(n(s.flat[0]))
        if c <= 0 or even and m % c:
            raise Stop
        q, r = divmod(m, c)
        ends = list(itertools.accumulate([q + 1] * r + [q] * (c - r)))
    else:
        ends = [int(x) for x in nums(s)] + [m]
    out, lo = [], 0
    for e in ends:
        out.append(maplines(v, k, lambda es, lo=lo, e=e: es[lo:e]))
        lo = e
    return out


@fold("np.split", sig=["ary", "indices_or_sections", "axis"])
def _split(f):
    return cuts(f, True)


@fold("np.array_split", sig=["ary", "indices_or_sections", "axis"])
def _asplit(f):
    return cuts(f, False)


def stack(vs, k):
    if len({v.dims for v in vs}) != 1:
        raise Stop
    d = vs[0].dims
    k = k % (len(d) + 1)
    rd = d[:k] + (len(vs),) + d[k:]
    return Lit(rd, [vs[p[k]].get(p[:k] + p[k + 1:]) for p in itertools.product(*[range(m) for m in rd])])


@fold("np.stack", sig=["arrays", "axis"])
def _stack(f):
    return stack(f.seq("arrays"), f.int("axis", 0))


def conc(vs, k):
    d = vs[0].dims
    if any(v.nd != len(d) or v.dims[:k] + v.dims[k + 1:] != d[:k] + d[k + 1:] for v in vs) or not 0 <= k < len(d):
        raise Stop
    out = []
    for p in itertools.product(*[range(m) for m in d[:k]]):
        for v in vs:
            for q in itertools.product(*[range(m) for m in v.dims[k:]]):
                out.append(v.get(p + q))
    return Lit(d[:k] + (sum(v.dims[k] for v in vs),) + d[k + 1:], out)


@fold("np.concatenate", sig=["arrays", "axis"])
def _conc(f):
    vs = f.seq("arrays")
    k = f.int("axis", 0)
    if k is None:
        return v1([e for v in vs for e in v.flat])
    return conc(vs, k % vs[0].nd if vs[0].nd else 0)


@fold("np.hstack", sig=["tup"])
def _hstack(f):
    vs = [v if v.nd else v1(v.flat) for v in f.seq("tup")]
    return conc(vs, 0 if vs[0].nd == 1 else 1)


@fold("np.vstack", sig=["tup"])
def _vstack(f):
    return conc([v if v.nd > 1 else Lit((1, len(v.flat)), v.flat) for v in f.seq("tup")], 0)


@fold("np.column_stack", sig=["tup"])
def _cstack(f):
    return conc([v if v.nd > 1 else Lit((len(v.flat), 1), v.flat) for v in f.seq("tup")], 1)


@fold("np.dstack", sig=["tup"])
def _dstack(f):
    vs = [Lit((1, v.dims[0], 1), v.flat) if v.nd == 1 else Lit(v.dims + (1,), v.flat) if v.nd == 2 else v for v in f.seq("tup")]
    return conc(vs, 2)


@fold("np.block", sig=["arrays"])
def _block(f):
    x = f.raw("arrays")
    if x.op != "list" or not all(r.op == "list" for r in x.args):
        raise Stop
    rows = []
    for r in x.args:
        vs = [tolit(f.ext, y) for y in r.args]
        if any(v is None or v.nd != 2 for v in vs):
            raise Stop
        rows.append(conc(vs, 1))
    return conc(rows, 0)


def triangle(ext, A, lower=True):
    """Cholesky factor of a constant positive definite matrix, square roots kept exact"""
    if ext.definite(A) is not True:
        raise Stop
    v = ext.lits.of(A)
    k = v.dims[0]
    if k > 8:
        raise Stop
    M = [[Fraction(n(v.get((i, j)))) for j in range(k)] for i in range(k)]
    l, d = [[Fraction(int(i == j)) for j in range(k)] for i in range(k)], []
    for j in range(k):
        d.append(M[j][j] - sum(l[j][q] ** 2 * d[q] for q in range(j)))
        for i in range(j + 1, k):
            l[i][j] = (M[i][j] - sum(l[i][q] * l[j][q] * d[q] for q in range(j))) / d[j]
    r = [t.pow_(t.num(x), t.HALF) for x in d]
    e = lambda i, j: t.mul(t.num(l[i][j]), r[j]) if i >= j else ZERO
    return Lit((k, k), [e(i, j) if lower else e(j, i) for i in range(k) for j in range(k)])


@fold("scipy.linalg.solve_triangular", sig=["a", "b", "trans", "lower", "unit_diagonal", "overwrite_b", "debug", "check_finite"])
def _soltri(f):
    m = f.raw("a")
    if m.op == "T" and m.args[0].op == "chofac":
        v = triangle(f.ext, m.args[0].args[0], m.args[0].args[1] != "L")
    elif m.op == "chofac":
        v = triangle(f.ext, m.args[0], m.args[1] == "L")
    elif m.op == "array":
        v = f.lit("a")
    else:
        raise Stop
    if v.nd != 2 or v.dims[0] != v.dims[1] or not 0 < v.dims[0] <= 8 or f.bool("unit_diagonal"):
        raise Stop
    k, lo = v.dims[0], f.bool("lower")
    tr = f.raw("trans", ZERO)
    if tr is t.s("T") or tr is ONE:
        v, lo = Lit((k, k), [v.get((j, i)) for i in range(k) for j in range(k)]), not lo
    elif not (tr is ZERO or tr is t.s("N")):
        raise Stop
    inv = []
    for i in range(k):
        d = v.get((i, i))
        if d is ZERO:
            raise Stop
        inv.append(t.pow_(d, t.num(-1)))
    # inverse of the triangle, column by column
    K = [[ZERO] * k for _ in range(k)]
    for j in range(k):
        for i in (range(k) if lo else reversed(range(k))):
            acc = ONE if i == j else ZERO
            for q in (range(i) if lo else range(i + 1, k)):
                acc = t.sub(acc, t.mul(v.get((i, q)), K[q][j]))
            K[i][j] = t.mul(acc, inv[i])
    return f.ext.dot(Lit((k, k), [x for r in K for x in r]).term(), f.raw("b"))


@fold("np.linalg.svd", sig=["a", "full_matrices"])
def _svd(f):
    A = f.raw("a")
    if f.ext.definite(A) is not True:
        raise Stop
    v = f.ext.lits.of(A)
    k = v.dims[0]
    if any(v.get((i, j)) is not ZERO for i in range(k) for j in range(k) if i != j):
        raise Stop
    d = [n(v.get((i, i))) for i in range(k)]
    if len(set(d)) < k:
        raise Stop
    o = sorted(range(k), key=lambda i: -d[i])
    u = [ONE if o[j] == i else ZERO for i in range(k) for j in range(k)]
    w = [ONE if o[j] == i else ZERO for j in range(k) for i in range(k)]
    return (Lit((k, k), u), v1(N([d[i] for i in o])), Lit((k, k), w))


@fold("np.tril", "np.triu", sig=["m", "k"])
def _tri(f):
    lo = f.name == "np.tril"
    m = f.raw("m")
    if m.op == "at" and m.args[0].op == "cho" and m.args[1] is ZERO and len(m.args[0].args) == 2 and m.args[0].args[1] == ("L" if lo else "U"):
        v, k = triangle(f.ext, m.args[0].args[0], lo), f.int("k", 0)      # the other triangle is unspecified
        if k != 0:
            raise Stop
        return v
    v, k = f.lit("m"), f.int("k", 0)
    if v.nd != 2:
        raise Stop
    return Lit(v.dims, [e if ((j - i <= k) if lo else (j - i >= k)) else ZERO
                        for (i, j), e in zip(itertools.product(range(v.dims[0]), range(v.dims[1])), v.flat)])


@fold("np.diag_indices", sig=["n"])
def _diagidx(f):
    k = f.int("n")
    if not 0 <= k <= 16:
        raise Stop
    return (v1(N(range(k))), v1(N(range(k))))


@fold("np.tril_indices", "np.triu_indices", sig=["n", "k"])
def _triidx(f):
    m, k = f.int("n"), f.int("k", 0)
    if not 0 <= m <= 8:
        raise Stop
    lo = f.name == "np.tril_indices"
    p = [(i, j) for i in range(m) for j in range(m) if ((j - i <= k) if lo else (j - i >= k))]
    return (v1(N([i for i, _ in p])), v1(N([j for _, j in p])))


@fold("np.size", sig=["a", "axis"])
def _size(f):
    v = f.lit("a", arr=False)
    k = f.axis(v)
    return len(v.flat) if k is None else v.dims[k]


@fold("np.meshgrid", sig=["a", "b", "indexing"])
def _mesh(f):
    a, b = f.lit("a"), f.lit("b")
    ij = f.has("indexing") and f.raw("indexing") is t.s("ij")
    p, q = len(a.flat), len(b.flat)
    if ij:
        return [Lit((p, q), [a.flat[i] for i in range(p) for j in range(q)]), Lit((p, q), [b.flat[j] for i in range(p) for j in range(q)])]
    return [Lit((q, p), [a.flat[j] for i in range(q) for j in range(p)]), Lit((q, p), [b.flat[i] for i in range(q) for j in range(p)])]


# ---------------------------------------------------------------- ordering and rounding: numeric entries
def rnd(x, d=0):
    m = Fraction(10) ** d
    return Fraction(round(x * m)) / m


ROUND = {"np.rint": rnd, "np.floor": lambda x: Fraction(math.floor(x)), "np.ceil": lambda x: Fraction(math.ceil(x)),
         "np.trunc": lambda x: Fraction(math.trunc(x)), "np.fix": lambda x: Fraction(math.trunc(x)),
         "np.sign": lambda x: Fraction((x > 0) - (x < 0))}


@fold(*ROUND, sig=["x"])
def _round1(f):
    v = f.lit("x", arr=False)
    return Lit(v.dims, N([ROUND[f.name](x) for x in nums(v)]))


@fold("np.round", sig=["a", "decimals"])
def _round(f):
    v, d = f.lit("a", arr=False), f.int("decimals", 0)
    return Lit(v.dims, N([rnd(x, d or 0) for x in nums(v)]))


def two(f, a, b, fn):
    x, y = f.lit(a, arr=False), f.lit(b, arr=False)
    nd = max(x.nd, y.nd)
    da, db = [1] * (nd - x.nd) + list(x.dims), [1] * (nd - y.nd) + list(y.dims)
    rd = [max(p, q) if 0 not in (p, q) else 0 for p, q in zip(da, db)]
    x, y = f.ext.lits.bcast(x, rd), f.ext.lits.bcast(y, rd)
    if x is None or y is None:
        raise Stop
    return Lit(rd, [fn(p, q) for p, q in zip(x.flat, y.flat)])


@fold("np.heaviside", sig=["x1", "x2"])
def _heaviside(f):
    return two(f, "x1", "x2", lambda p, q: ZERO if n(p) < 0 else ONE if n(p) > 0 else q)


@fold("np.maximum", "np.fmax", sig=["x1", "x2"])
def _maximum(f):
    return two(f, "x1", "x2", lambda p, q: f.ext.minmax("max", [p, q], {}))


@fold("np.minimum", "np.fmin", sig=["x1", "x2"])
def _minimum(f):
    return two(f, "x1", "x2", lambda p, q: f.ext.minmax("min", [p, q], {}))


@fold("np.mod", "np.remainder", sig=["x1", "x2"])
def _mod(f):
    return two(f, "x1", "x2", modq)


def modq(p, q):
    if not n(q):
        raise Stop
    return t.num(n(p) - n(q) * math.floor(n(p) / n(q)))


def floorq(p, q):
    if not n(q):
        raise Stop
    return t.num(math.floor(n(p) / n(q)))


@fold("np.floor_divide", sig=["x1", "x2"])
def _floordiv(f):
    return two(f, "x1", "x2", floorq)


@fold("np.fmod", sig=["x1", "x2"])
def _fmod(f):
    return two(f, "x1", "x2", lambda p, q: t.num(n(p) - n(q) * math.trunc(n(p) / n(q))) if n(q) else p)


@fold("np.clip", sig=["a", "a_min", "a_max"])
def _clip(f):
    v = f.lit("a", arr=False)
    lo, hi = f.raw("a_min", NONE), f.raw("a_max", NONE)
    lo, hi = (None if lo is NONE else n(lo)), (None if hi is NONE else n(hi))

    def g(x):
        x = max(x, lo) if lo is not None else x
        return min(x, hi) if hi is not None else x
    return Lit(v.dims, N([g(x) for x in nums(v)]))


def mm(nm):
    def g(f):
        v = f.lit("a")
        k = f.axis(v)
        if not v.flat:
            f.ip.raise_(f.ip.exc("ValueError"))
        nums(v)
        return reduce_(v, k, lambda es: t.num((max if nm == "max" else min)(n(e) for e in es)))
    return g


fold("np.max", "np.nanmax", sig=["a", "axis"])(mm("max"))
fold("np.min", "np.nanmin", sig=["a", "axis"])(mm("min"))


@fold("np.ptp", sig=["a", "axis"])
def _ptp(f):
    v = f.lit("a")
    return reduce_(v, f.axis(v), lambda es: t.num(max(map(n, es)) - min(map(n, es))))


@fold("np.median", sig=["a", "axis"])
def _median(f):
    def g(es):
        s = sorted(map(n, es))
        if not s:
            raise Stop
        m = len(s) // 2
        return t.num(s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2)
    v = f.lit("a")
    return reduce_(v, f.axis(v), g)


def keyof(es):
    if es and all(e.op == "str" for e in es):
        return lambda e: e.args[0]
    return n


@fold("np.sort", sig=["a", "axis", "kind"])
def _sort(f):
    v = f.lit("a")
    keys = keyof(v.flat)
    if keys is n:
        nums(v)
    return maplines(v, f.axis(v, -1), lambda es: sorted(es, key=keys))


@fold("np.argsort", sig=["a", "axis", "kind"])
def _argsort(f):
    v = f.lit("a")
    keys = keyof(v.flat)
    stable = f.has("kind") and f.raw("kind") in (t.s("stable"), t.s("mergesort"))

    def g(es):
        ks = [keys(e) for e in es]
        if len(set(ks)) < len(ks) and not stable and len(ks) > 16:
            raise Stop
        if len(set(ks)) < len(ks) and not stable:
            raise Stop
        return N(sorted(range(len(es)), key=lambda i: ks[i]))
    return maplines(v, f.axis(v, -1), g)


@fold("np.lexsort", sig=["keys"])
def _lexsort(f):
    vs = f.seq("keys")
    ks = [[keyof(v.flat)(e) for e in v.flat] for v in vs]
    return v1(N(sorted(range(len(ks[0])), key=lambda i: tuple(k[i] for k in reversed(ks)))))


@fold("np.unique", sig=["ar", "return_index", "return_inverse", "return_counts"])
def _unique(f):
    v = f.lit("ar", arr=False)
    keys = keyof(v.flat)
    ks = [keys(e) for e in v.flat]
    us = sorted(set(ks))
    out = [v1([v.flat[ks.index(u)] for u in us])]
    if f.bool("return_index"):
        out.append(v1(N([ks.index(u) for u in us])))
    if f.bool("return_inverse"):
        if v.nd != 1:
            raise Stop
        out.append(v1(N([us.index(k) for k in ks])))
    if f.bool("return_counts"):
        out.append(v1(N([ks.count(u) for u in us])))
    return tuple(out) if len(out) > 1 else out[0]


@fold("np.argmax", "np.argmin", sig=["a", "axis"])
def _argmax(f):
    v = f.lit("a")
    k = f.axis(v)

    def g(es):
        ks = [n(e) for e in es]
        return t.num(ks.index(max(ks) if f.name == "np.argmax" else min(ks)))
    return reduce_(v, k, g)


@fold("np.searchsorted", sig=["a", "v", "side"])
def _searchsorted(f):
    a, v = nums(f.lit("a")), f.lit("v", arr=False)
    s = f.raw("side", t.s("left"))
    if s not in (t.s("left"), t.s("right")) or a != sorted(a):
        raise Stop
    import bisect
    g = bisect.bisect_left if s is t.s("left") else bisect.bisect_right
    return Lit(v.dims, N([g(a, x) for x in nums(v)]))


@fold("np.digitize", sig=["x", "bins", "right"])
def _digitize(f):
    x, b = f.lit("x", arr=False), nums(f.lit("bins"))
    right = f.bool("right")
    if b != sorted(b):
        raise Stop
    import bisect
    g = bisect.bisect_left if right else bisect.bisect_right
    return Lit(x.dims, N([g(b, q) for q in nums(x)]))


@fold("np.interp", sig=["x", "xp", "fp", "left", "right"])
def _interp(f):
    x, xp, fp = f.lit("x", arr=False), nums(f.lit("xp")), f.lit("fp").flat
    if len(xp) != len(fp) or any(q <= p for p, q in zip(xp, xp[1:])):
        raise Stop
    lo, hi = f.raw("left", NONE), f.raw("right", NONE)
    lo, hi = (fp[0] if lo is NONE else lo), (fp[-1] if hi is NONE else hi)
    out = []
    for q in nums(x):
        if q < xp[0]:
            out.append(lo)
        elif q > xp[-1]:
            out.append(hi)
        elif q == xp[-1]:
            out.append(fp[-1])
        else:
            i = max(j for j in range(len(xp)) if xp[j] <= q)
            w = (q - xp[i]) / (xp[i + 1] - xp[i])
            out.append(t.add(fp[i], t.mul(t.num(w), t.sub(fp[i + 1], fp[i]))))
    return Lit(x.dims, out)


@fold("np.bincount", sig=["x", "weights", "minlength"])
def _bincount(f):
    x = f.lit("x")
    w = f.lit("weights").flat if f.has("weights") and f.raw("weights") is not NONE else [ONE] * len(x.flat)
    js = [int(q) for q in nums(x)]
    m = max([j + 1 for j in js] + [f.int("minlength", 0)])
    if m > 64 or min(js + [0]) < 0 or len(w) != len(js):
        raise Stop
    return v1([t.add(ZERO, *[e for j, e in zip(js, w) if j == i]) for i in range(m)])


@fold("np.histogram", sig=["a", "bins"])
def _histogram(f):
    x, b = nums(f.lit("a")), f.lit("bins")
    bs = nums(b)
    if bs != sorted(bs) or len(bs) < 2:
        raise Stop
    c = [sum(1 for q in x if lo <= q < hi or i == len(bs) - 2 and q == hi) for i, (lo, hi) in enumerate(zip(bs, bs[1:]))]
    return (v1(N(c)), b)


@fold("np.count_nonzero", sig=["a"])
def _count(f):
    return sum(1 for x in nums(f.lit("a", arr=False)) if x)


@fold("np.argwhere", sig=["a"])
def _argwhere(f):
    v = f.lit("a")
    ps = [p for p in itertools.product(*[range(m) for m in v.dims]) if n(v.get(p))]
    if not ps:
        raise Stop
    return Lit((len(ps), v.nd), N([i for p in ps for i in p]))


@fold("np.nonzero", sig=["a"])
def _nonzero(f):
    v = f.lit("a")
    ps = [p for p in itertools.product(*[range(m) for m in v.dims]) if n(v.get(p))]
    return tuple(v1(N([p[k] for p in ps])) for k in range(v.nd))


@fold("np.flatnonzero", sig=["a"])
def _flatnonzero(f):
    return v1(N([i for i, x in enumerate(nums(f.lit("a"))) if x]))


def setop(fn):
    def g(f):
        a, b = f.lit("ar1", arr=False), f.lit("ar2", arr=False)
        keys = keyof(list(a.flat) + list(b.flat))
        x, y = {keys(e): e for e in a.flat}, {keys(e): e for e in b.flat}
        r = fn(set(x), set(y))
        return v1([x.get(k, y.get(k)) for k in sorted(r)])
    return g


fold("np.intersect1d", sig=["ar1", "ar2"])(setop(lambda a, b: a & b))
fold("np.union1d", sig=["ar1", "ar2"])(setop(lambda a, b: a | b))
fold("np.setdiff1d", sig=["ar1", "ar2"])(setop(lambda a, b: a - b))
fold("np.setxor1d", sig=["ar1", "ar2"])(setop(lambda a, b: a ^ b))


@fold("np.isclose", sig=["a", "b", "rtol", "atol"])
def _isclose(f):
    r, a = n(f.raw("rtol", t.num(Fraction(1, 10 ** 5)))), n(f.raw("atol", t.num(Fraction(1, 10 ** 8))))
    return two(f, "a", "b", lambda p, q: TRUE if abs(n(p) - n(q)) <= a + r * abs(n(q)) else FALSE)


@fold("np.allclose", sig=["a", "b", "rtol", "atol"])
def _allclose(f):
    return TRUE if all(e is TRUE for e in _isclose(f).flat) else FALSE


@fold("np.array_equal", sig=["a1", "a2"])
def _aeq(f):
    a, b = f.lit("a1", arr=False), f.lit("a2", arr=False)
    if a.dims != b.dims:
        return FALSE
    es = [t.eq(p, q) for p, q in zip(a.flat, b.flat)]
    if any(e not in (TRUE, FALSE) for e in es):
        raise Stop
    return TRUE if all(e is TRUE for e in es) else FALSE


@fold("np.sum", sig=["a", "axis"])
def _sum(f):
    v = f.lit("a")
    if not any(t.is_bool(e) for e in v.flat):
        raise Stop
    k = f.axis(v)
    return reduce_(v, k, lambda es: t.add(ZERO, *[b2n(e) for e in es]))


@fold("np.gradient", sig=["f"])
def _gradient(f):
    es = f.lit("f").flat
    if len(es) < 2 or f.lit("f").nd != 1:
        raise Stop
    m = [t.mul(t.HALF, t.sub(es[i + 1], es[i - 1])) for i in range(1, len(es) - 1)]
    return v1([t.sub(es[1], es[0])] + m + [t.sub(es[-1], es[-2])])


@fold("np.select", sig=["condlist", "choicelist", "default"])
def _select(f):
    cs, xs = f.seq("condlist"), f.seq("choicelist")
    d = f.raw("default", ZERO)
    dims = cs[0].dims
    xs = [f.ext.lits.bcast(x, list(dims)) for x in xs]
    if any(x is None for x in xs) or any(c.dims != dims for c in cs):
        raise Stop
    out = []
    for i in range(len(cs[0].flat)):
        r = d
        for c, x in reversed(list(zip(cs, xs))):
            r = t.ite(t.truth(c.flat[i]), x.flat[i], r)
        out.append(r)
    return Lit(dims, out)


@fold("np.where", sig=["condition", "x", "y"])
def _where3(f):
    c = f.lit("condition")
    if not f.has("x"):
        ps = [p for p in itertools.product(*[range(m) for m in c.dims]) if n(c.get(p))]
        return tuple(v1(N([p[k] for p in ps])) for k in range(c.nd))
    x, y = f.lit("x", arr=False), f.lit("y", arr=False)
    nd = max(c.nd, x.nd, y.nd)
    rd = [max(p) for p in zip(*[[1] * (nd - v.nd) + list(v.dims) for v in (c, x, y)])]
    c, x, y = [f.ext.lits.bcast(v, rd) for v in (c, x, y)]
    if c is None or x is None or y is None:
        raise Stop
    return Lit(rd, [t.ite(t.truth(a), p, q) for a, p, q in zip(c.flat, x.flat, y.flat)])


@fold("np.ravel", sig=["a"])
def _ravel(f):
    v = f.lit("a")
    return v1(v.flat)


@fold("np.squeeze", sig=["a", "axis"])
def _squeeze(f):
    v = f.lit("a")
    k = f.axis(v)
    d = [m for i, m in enumerate(v.dims) if m != 1 or k is not None and i != k]
    return Lit(d, v.flat)


@fold("np.expand_dims", sig=["a", "axis"])
def _expand(f):
    v, k = f.lit("a"), f.int("axis")
    k = k % (v.nd + 1)
    return Lit(v.dims[:k] + (1,) + v.dims[k:], v.flat)


@fold("np.swapaxes", sig=["a", "axis1", "axis2"])
def _swap(f):
    v, i, j = f.lit("a"), f.int("axis1"), f.int("axis2")
    p = list(range(v.nd))
    p[i], p[j] = p[j], p[i]
    return perm(v, p)


def perm(v, p):
    rd = [v.dims[i] for i in p]
    inv = [p.index(i) for i in range(v.nd)]
    return Lit(rd, [v.get(tuple(q[inv[i]] for i in range(v.nd))) for q in itertools.product(*[range(m) for m in rd])])


@fold("np.transpose", sig=["a", "axes"])
def _transpose(f):
    v = f.lit("a")
    if not f.has("axes") or f.raw("axes") is NONE:
        return perm(v, list(range(v.nd))[::-1])
    return perm(v, [int(x) % v.nd for x in nums(f.lit("axes"))])


@fold("np.char.decode", sig=["a", "encoding", "errors"])
def _chardecode(f):
    v = f.lit("a")
    if any(e.op != "bytes" for e in v.flat):
        raise Stop
    try:
        return Lit(v.dims, [t.s(e.args[0].decode()) for e in v.flat])
    except UnicodeDecodeError:
        raise Stop


@fold("np.atleast_1d", sig=["a"])
def _al1(f):
    v = f.lit("a", arr=False)
    return v if v.nd else v1(v.flat)


@fold("np.atleast_2d", sig=["a"])
def _al2(f):
    v = f.lit("a", arr=False)
    return v if v.nd >= 2 else Lit((1, len(v.flat)), v.flat)


@fold("np.flip", sig=["m", "axis"])
def _flip(f):
    v = f.lit("m")
    k = f.axis(v)
    if k is None:
        return Lit(v.dims, list(v.flat)[::-1])
    return maplines(v, k, lambda es: es[::-1])


@fold("np.flipud", "np.fliplr", sig=["m"])
def _flipx(f):
    v = f.lit("m")
    return maplines(v, 0 if f.name == "np.flipud" else 1, lambda es: es[::-1])


@fold("np.choose", sig=["a", "choices"])
def _choose(f):
    a, cs = f.lit("a"), f.seq("choices")
    if any(c.dims != a.dims for c in cs) or any(not 0 <= int(n(e)) < len(cs) for e in a.flat):
        raise Stop
    return Lit(a.dims, [cs[int(n(e))].flat[i] for i, e in enumerate(a.flat)])


@fold("np.fromiter", sig=["it", "dtype"])
def _fromiter(f):
    if not f.ext.isfloat(f.raw("dtype")):
        raise Stop
    return f.lit("it")


@fold("np.isscalar", sig=["x"])
def _isscalar(f):
    x = f.raw("x")
    if x.op in ("num", "str", "true", "false"):
        return TRUE
    if x.op in ("array", "list", "tuple", "dict", "none"):
        return FALSE
    raise Stop


def _path(fn):
    def g(f):
        import posixpath
        xs = [f.raw(k) for k in ("a", "b", "c", "d") if f.has(k)]
        if not xs or any(x.op != "str" for x in xs):
            raise Stop
        r = getattr(posixpath, fn)(*[x.args[0] for x in xs])
        return t.tup(*[t.s(p) for p in r]) if isinstance(r, tuple) else t.s(r)
    return g


for _p in ("split", "dirname", "basename", "join", "splitext", "normpath"):
    fold("os.path." + _p, sig=["a", "b", "c", "d"])(_path(_p))
