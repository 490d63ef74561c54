"""Comparison of two outcomes (analysed tree vs reference): equal / different / undecided."""
import math
import random
import itertools
from fractions import Fraction

from . import terms as t
from .terms import T, mk, NONE, TRUE, FALSE, ZERO, ONE

# heads through which one and the same value can be written in several ways that the normal form does not unify;
# a difference located inside them is not reported unless both sides use the same ones
FAMILY = {"fold", "wfold", "sflat", "flat", "dflat", "first", "sumdom", "npsum", "dot", "T", "SOLVE", "INV", "LOGDET", "store", "cat", "mapseq",
          "keyerror", "undef", "absent", "apply", "setop", "unzip", "zip", "enumerate", "sorted", "pysum", "strf", "dynattr", "ddict",
          "np.where", "np.concatenate", "np.hstack", "np.vstack", "np.append", "np.column_stack", "np.einsum", "np.tensordot", "np.outer",
          "np.repeat", "np.tile", "np.flatnonzero", "np.nonzero", "np.argsort", "np.searchsorted", "np.block", "np.stack", "np.reshape",
          "np.ravel", "np.transpose", "np.meshgrid", "np.triu_indices", "np.tril_indices", "np.split", "np.array_split", "np.digitize",
          "np.cumsum", "np.diff", "np.full", "zeros", "ones", "array", "eye", "diag", "np.linspace", "np.arange", "np.bincount", "np.add.reduce",
          "np.multiply.outer", "np.r_", "np.c_", "np.inner", "np.vdot", "np.trace", "np.isin", "np.unique", "any", "all", "slice", "setof",
          "rangelen", "range", "np.broadcast_to", "np.atleast_1d", "np.atleast_2d", "np.expand_dims", "np.squeeze", "np.take", "np.compress",
          "np.ix_", "np.sort", "np.flip", "np.roll", "np.moveaxis", "np.swapaxes", "np.asarray", "np.ones_like", "np.zeros_like",
          "np.copy", "np.add", "np.multiply", "np.subtract", "np.divide", "np.floor_divide", "np.select", "np.choose", "np.logical_and.reduce",
          "np.logical_or.reduce", "np.piecewise", "np.linalg.multi_dot", "np.fromiter", "np.empty", "np.clip", "np.maximum", "np.minimum",
          "np.hypot", "np.heaviside", "np.sign", "np.nan_to_num", "np.cross", "np.max", "np.min", "np.mean", "np.prod", "np.count_nonzero"}
BINDERS = t.BINDERS


def head(x):
    if x.op == "call":
        return x.args[0]
    if x.op == "meth":
        return "." + x.args[0]
    return x.op


_heads = {}


def heads(x):
    r = _heads.get(x)
    if r is None:
        r = {head(x)}
        for a in x.args:
            if isinstance(a, T):
                r |= heads(a)
        r = frozenset(r)
        _heads[x] = r
    return r


_syms = {}


def symset(x):
    r = _syms.get(x)
    if r is None:
        r = {x} if x.op in ("sym",) else set()
        for a in x.args:
            if isinstance(a, T):
                r |= symset(a)
        r = frozenset(r)
        _syms[x] = r
    return r


# ------------------------------------------------------------------ conditions
def gates(x, out, seen, inb=False):
    """conditions of ite nodes outside binders"""
    if x in seen:
        return
    seen.add(x)
    if x.op in BINDERS:
        return
    if x.op == "ite":
        atoms(x.args[0], out)
    for a in x.args:
        if isinstance(a, T):
            gates(a, out, seen)


def atoms(c, out):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            atoms(a, out)
    elif c.op == "ite":
        for a in c.args:
            atoms(a, out)
    elif c not in (TRUE, FALSE):
        if not any(v.op == "bv" for v in t.fvs(c)):
            n = t.not_(c)
            if n in out:
                return
            out[c] = out.get(c, 0) + 1


EXCL = {"str", "list", "dict", "tuple", "ndarray", "int", "float", "set", "type", "Parameter", "bool"}


def contradictory(facts):
    """facts: {atom: bool}.  Conservative detection of impossible combinations"""
    byobj = {}
    for c, v in facts.items():
        if c.op == "is" and c.args[1] is NONE and v:
            byobj.setdefault(c.args[0], []).append("None")
        elif c.op == "isinst" and v:
            byobj.setdefault(c.args[0], []).append(str(c.args[1].args[0]) if c.args[1].args else "?")
        elif c.op == "truth" and v:
            byobj.setdefault(c.args[0], []).append("truthy")
        elif c.op == "hasattr" and v:
            byobj.setdefault(c.args[0], []).append("attr")
        elif c.op == "is" and c.args[1] in (TRUE, FALSE) and v:
            byobj.setdefault(c.args[0], []).append("bool" + c.args[1].op)
        elif c.op in ("pos", "nneg") and v:
            byobj.setdefault(c.args[0], []).append("number")
        elif c.op == "eq" and v:
            for a, b in (c.args, c.args[::-1]):
                if b.op in ("str", "num"):
                    byobj.setdefault(a, []).append("=" + str(b.args[0]))
    for o, tags in byobj.items():
        s = set(tags)
        if "None" in s and len(s) > 1:
            return True
        eqs = [x for x in s if x.startswith("=")]
        if len(eqs) > 1:
            return True
        ty = {x.split(".")[-1] for x in s} & EXCL
        if len(ty) > 1:
            return True
    tr = [c for c, v in facts.items() if v]
    fa = [c for c, v in facts.items() if not v]
    for a, b in itertools.combinations([(c.op, c.args[0], v) for c, v in facts.items() if c.op in ("pos", "nneg", "eq0")], 2):
        for (o1, d1, v1), (o2, d2, v2) in ((a, b), (b, a)):
            if d1 is t.neg(d2) or d1 is d2 or t.add(d1, d2).op == "num" or t.sub(d1, d2).op == "num":
                if linear_conflict(o1, d1, v1, o2, d2, v2):
                    return True
    return False


def interval(o, v):
    """(lo, lo_open, hi, hi_open) of d"""
    inf = float("inf")
    if o == "pos":
        return (0, True, inf, True) if v else (-inf, True, 0, False)
    if o == "nneg":
        return (0, False, inf, True) if v else (-inf, True, 0, True)
    if o == "eq0":
        return (0, False, 0, False) if v else None
    return None


def linear_conflict(o1, d1, v1, o2, d2, v2):
    i1, i2 = interval(o1, v1), interval(o2, v2)
    s1 = t.sub(d1, d2)
    if s1.op == "num":
        k = float(t.numval(s1))  # d1 = d2 + k
        if i2 is None or i1 is None:
            if k == 0:
                if i1 is None and i2 == (0, False, 0, False) or i2 is None and i1 == (0, False, 0, False):
                    return True
            return False
        lo2, a2, hi2, b2 = i2[0] + k, i2[1], i2[2] + k, i2[3]
    else:
        s2 = t.add(d1, d2)
        if s2.op != "num":
            return False
        k = float(t.numval(s2))  # d1 = k - d2
        if i2 is None or i1 is None:
            return False
        lo2, a2, hi2, b2 = k - i2[2], i2[3], k - i2[0], i2[1]
    lo = max(i1[0], lo2)
    hi = min(i1[2], hi2)
    if lo > hi:
        return True
    if lo == hi:
        lop = (i1[1] if i1[0] == lo else False) or (a2 if lo2 == lo else False)
        hip = (i1[3] if i1[2] == hi else False) or (b2 if hi2 == hi else False)
        return lop or hip
    return False


def restrict(x, facts, memo):
    """replace decided atoms inside gates"""
    m = {}
    for c, v in facts.items():
        m[c] = TRUE if v else FALSE
        m[t.not_(c)] = FALSE if v else TRUE
    return t.subst(x, m, memo)


# ------------------------------------------------------------------ random interpretation
class CantEval(Exception):
    pass


ELEM = {"mono", "poly", "exp", "log", "cos", "sin", "tan", "arctan", "abs"}
UFUNCS = {"np." + k for k in ("where minimum maximum fmin fmax sinc sign floor ceil mod fmod remainder arctan2 arcsin arccos arctan sinh cosh tanh power isnan "
                              "isfinite isinf logical_and logical_or logical_not logical_xor heaviside hypot radians degrees deg2rad rad2deg rint trunc "
                              "floor_divide real imag conjugate angle nan_to_num clip isin round astype isclose square reciprocal").split()}
_picks = {}


def elem(x):
    return x.op in ELEM or x.op in ("ite", "pos", "nneg", "eq", "eq0", "and", "or", "not", "truth", "in") or x.op == "call" and x.args[0] in UFUNCS


def picks(x):
    """indices applied to element-wise expressions (and choices) whose broadcasting is not known"""
    r = _picks.get(x)
    if r is None:
        r = set()
        if x.op == "at" and elem(x.args[0]):
            r.add(x.args[1])
        for z in x.args:
            if isinstance(z, T):
                r |= picks(z)
        r = frozenset(r)
        _picks[x] = r
    return r


def _coef(dig, k):
    r = random.Random(dig + bytes([k]))
    return r.uniform(0.3, 1.7)


class Rand:
    """maps terms to complex numbers: ring operations and elementary functions interpreted, everything else by a
    fixed smooth function chosen from the head symbol (random interpretation for value numbering)"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def r(self, key, lo=0.2, hi=1.9):
        return random.Random("%d|%s" % (self.seed, key)).uniform(lo, hi)

    def ev(self, x):
        v = self.memo.get(x)
        if v is None:
            v = self._ev(x)
            if isinstance(v, complex) and (v != v or abs(v) > 1e200):
                raise CantEval
            self.memo[x] = v
        return v

    def _ev(self, x):
        o, a = x.op, x.args
        if o == "num":
            return complex(float(a[0]))
        if o == "pi":
            return complex(math.pi)
        if o == "E":
            return complex(math.e)
        if o == "I":
            return 1j
        if o in ("sym", "str", "bv", "fv", "none", "ellipsis", "true", "false", "pub", "ext", "bi", "pv", "ref", "rng0"):
            return complex(self.r(o + repr([z.dig if isinstance(z, T) else z for z in a])))
        if o == "poly":
            return sum(self.ev(z) for z in a)
        if o == "mono":
            r = complex(float(a[0]))
            for i in range(1, len(a), 2):
                r *= self.pow(self.ev(a[i]), self.ev(a[i + 1]))
            return r
        import cmath
        try:
            if o == "exp":
                return cmath.exp(self.ev(a[0]))
            if o == "log":
                v = self.ev(a[0])
                if v == 0:
                    raise CantEval
                return cmath.log(v)
            if o in ("cos", "sin", "tan"):
                return getattr(cmath, o)(self.ev(a[0]))
            if o == "arctan":
                return cmath.atan(self.ev(a[0]))
            if o == "abs":
                return complex(abs(self.ev(a[0])))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise CantEval
        if o == "pos":
            return 1 + 0j if self.ev(a[0]).real > 0 else 0j
        if o == "nneg":
            return 1 + 0j if self.ev(a[0]).real >= 0 else 0j
        if o == "eq0":
            return 1 + 0j if abs(self.ev(a[0])) < 1e-9 else 0j
        if o == "not":
            return 1 - self.ev(a[0])
        if o == "and":
            return min((self.ev(z) for z in a), key=abs)
        if o == "or":
            return max((self.ev(z) for z in a), key=abs)
        if o == "ite":
            c = self.ev(a[0])
            if a[0].op in ("pos", "nneg", "eq0", "and", "or", "not"):
                return self.ev(a[1]) if abs(c) > 0.5 else self.ev(a[2])
            p, q = self.ev(a[1]), self.ev(a[2])
            return c * p + (1 - c) * q
        if o == "at" and a[0].op in ELEM:
            return self.evat(a[0], a[1])
        # uninterpreted: smooth function of the arguments
        h = o + "|" + "|".join(repr(z) for z in a if not isinstance(z, T))
        acc = complex(self.r(h, 0.1, 0.9))
        k = 0
        for z in a:
            if isinstance(z, T):
                k += 1
                v = self.ev(z)
                w1 = self.r(h + "#%d" % k, 0.3, 1.7)
                w2 = self.r(h + "@%d" % k, 0.3, 1.7)
                m = abs(v)
                # grows with the logarithm: relative changes of large and of ordinary arguments stay visible
                lg = v / m * math.log1p(m) if m else v
                if 0 < m < 1e-3 and self.clean(z):
                    # so do those of small ones that are no rounding residue
                    lg += v / m * 0.1 * math.log(1e-3 / m)
                acc += w1 * lg + w2 * cmath.sin(0.9 * lg) * (1 + 0.1 * k)
        return acc

    def clean(self, x):
        """the value is not what rounding leaves of cancelling terms"""
        if x.op == "mono":
            return all(self.clean(z) for z in x.args if isinstance(z, T))
        if x.op == "poly":
            return all(self.clean(z) for z in x.args) and abs(self.ev(x)) > 1e-6 * sum(abs(self.ev(z)) for z in x.args)
        return x.op not in ("sin", "cos", "tan", "ite", "log", "arctan", "and", "or", "not")

    def evat(self, x, i):
        """indexing commutes with element-wise operations"""
        k = (x, i)
        if k not in self.memo:
            self.memo[k] = self._evat(x, i)
        return self.memo[k]

    def _evat(self, x, i):
        import cmath
        o, a = x.op, x.args
        if o in ("num", "pi", "E", "I"):
            return self.ev(x)
        if o == "poly":
            return sum(self.evat(z, i) for z in a)
        if o == "mono":
            r = complex(float(a[0]))
            for j in range(1, len(a), 2):
                r *= self.pow(self.evat(a[j], i), self.evat(a[j + 1], i))
            return r
        try:
            if o == "exp":
                return cmath.exp(self.evat(a[0], i))
            if o == "log":
                return cmath.log(self.evat(a[0], i))
            if o in ("cos", "sin", "tan"):
                return getattr(cmath, o)(self.evat(a[0], i))
            if o == "arctan":
                return cmath.atan(self.evat(a[0], i))
            if o == "abs":
                return complex(abs(self.evat(a[0], i)))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise CantEval
        if t.LITS is not None and t.LITS.ext.ndim(x) is ZERO:
            return self.ev(x)
        return self.ev(t.at(x, i))

    def pow(self, b, e):
        try:
            if e.imag == 0 and e.real == int(e.real):
                return b ** int(e.real)
            if b == 0:
                raise CantEval
            return b ** e
        except (OverflowError, ZeroDivisionError):
            raise CantEval


def numeric_equal(a, b, n=4):
    """equal at random points (None: cannot tell)"""
    ok = 0
    grey = False
    res = None
    if a.op in t.ARITH and b.op in t.ARITH:
        d = t.sub(a, b)
        if d is ZERO:
            return True
        res = list(d.args) if d.op == "poly" else [d]
    for seed in range(1, n + 1):
        R = Rand(seed)
        try:
            va, vb = R.ev(a), R.ev(b)
        except (CantEval, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        if res is not None:
            # what is left after the common terms cancel, against the size of those remainders
            try:
                vs = [R.ev(z) for z in res]
            except (CantEval, OverflowError, ZeroDivisionError, ValueError, RecursionError):
                continue
            e, m = abs(sum(vs)), sum(abs(z) for z in vs)
        else:
            e, m = abs(va - vb), abs(va) + abs(vb)
        if e > 1e-7 * max(1e-300, m):
            return False
        if e > 1e-10 * m:
            grey = True
        ok += 1
    if not (ok > 0 and ok >= n // 2):
        return False
    if grey:
        return None
    # equal at random points says nothing about the boundaries of comparisons: those must agree one by one
    ca, cb = comparisons(a), comparisons(b)
    if ca == cb:
        return True
    for u, v in ((ca - cb, cb), (cb - ca, ca)):
        for x in u:
            if not any(x.op == y.op and samezero(x, y) for y in v):
                return None
    return True


_comps = {}


def comparisons(x):
    r = _comps.get(x)
    if r is None:
        r = frozenset([x]) if x.op in ("pos", "nneg", "eq0") else frozenset()
        for z in x.args:
            if isinstance(z, T):
                r |= comparisons(z)
        _comps[x] = r
    return r


def samezero(x, y):
    """same comparison with zero of expressions equal up to a positive factor (any factor for an equation)"""
    R = Rand(7)
    k = None
    d, e = x.args[0], y.args[0]
    for seed in (1, 2, 3):
        R = Rand(seed)
        try:
            u, v = R.ev(d), R.ev(e)
        except (CantEval, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            return False
        if v == 0:
            return False
        q = u / v
        if k is not None and abs(q - k) > 1e-7 * abs(k):
            return False
        k = q
    if abs(k.imag) > 1e-9 * abs(k):
        return False
    return x.op == "eq0" and k != 0 or k.real > 0


# ------------------------------------------------------------------ locating differences
def diffs(a, b, out, limit=40):
    """minimal differing subterm pairs"""
    if a is b or len(out) > limit:
        return
    if a.op in t.ARITH and b.op in t.ARITH and (a.op == "poly" or b.op == "poly"):
        ma = list(a.args) if a.op == "poly" else [a]
        mb = list(b.args) if b.op == "poly" else [b]
        return _multi(ma, mb, a, b, out)
    if a.op == "mono" and b.op == "mono":
        fa = {a.args[i]: a.args[i + 1] for i in range(1, len(a.args), 2)}
        fb = {b.args[i]: b.args[i + 1] for i in range(1, len(b.args), 2)}
        ra = {k: v for k, v in fa.items() if fb.get(k) is not v}
        rb = {k: v for k, v in fb.items() if fa.get(k) is not v}
        if a.args[0] != b.args[0]:
            out.append((a, b))
            return
        if len(ra) == 1 and len(rb) == 1:
            (ka, va), (kb, vb) = list(ra.items())[0], list(rb.items())[0]
            if va is vb:
                return diffs(ka, kb, out, limit)
            if ka is kb:
                return diffs(va, vb, out, limit)
        out.append((a, b))
        return
    if a.op in ("and", "or") and a.op == b.op:
        return _multi(list(a.args), list(b.args), a, b, out)
    if a.op == "dict" and b.op == "dict":
        if a.args[::2] == b.args[::2]:
            for x, y in zip(a.args[1::2], b.args[1::2]):
                diffs(x, y, out, limit)
            return
        out.append((a, b))
        return
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("num", "str", "sym"):
        same = all((isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(a.args, b.args))
        if same:
            if a.op == "ite" and a.args[0] is not b.args[0] and (a.args[1] is not b.args[1] or a.args[2] is not b.args[2]):
                out.append((a, b))
                return
            for x, y in zip(a.args, b.args):
                if isinstance(x, T):
                    diffs(x, y, out, limit)
            return
    out.append((a, b))


def _multi(la, lb, a, b, out):
    ra = [x for x in la if x not in lb]
    rb = [x for x in lb if x not in la]
    if len(ra) == 1 and len(rb) == 1:
        return diffs(ra[0], rb[0], out)
    if len(ra) == len(rb) and len(ra) <= 4:
        # pair by head set
        used = set()
        pairs = []
        for x in ra:
            best = None
            for j, y in enumerate(rb):
                if j in used or x.op != y.op:
                    continue
                sc = len(symset(x) & symset(y)) - abs(x.n - y.n) / (x.n + y.n)
                if best is None or sc > best[0]:
                    best = (sc, j)
            if best is None:
                pairs = None
                break
            used.add(best[1])
            pairs.append((x, rb[best[1]]))
        if pairs is not None:
            for x, y in pairs:
                diffs(x, y, out)
            return
    out.append((a, b))


LAWS = {}


def leaves(x):
    """the entries of a nested list"""
    return [z for y in x.args for z in leaves(y)] if x.op == "list" else [x]


def decisive(a, b, vocab, unknown):
    """is this pair certainly different?  (None: cannot tell)"""
    if t.distinct(a, b):
        return True
    if b.op == "other" and b.args[0] is a:
        return True         # read again in another process
    for x, y in ((a, b), (b, a)):
        if x.op in ("pymin", "pymax") and y.op == "sym" and y in x.args and any(z.op == "num" for z in x.args):
            return True         # cut off at a number
    ha, hb = heads(a), heads(b)
    if unknown & (ha | hb):
        return None
    fa, fb = ha & FAMILY, hb & FAMILY
    for x, y in ((a, b), (b, a)):
        if x.op == "array" and y.op == "num":
            e = leaves(x.args[0])
            if e and any(z.op == "num" and z is not y for z in e):
                return True
    if (a.op == "array") != (b.op == "array") and not ({a.op, b.op} & {"num", "str", "none", "true", "false", "tuple", "dict"}):
        return None
    CMP = ("pos", "nneg", "eq0")
    if a.op in CMP and b.op in CMP and a.op != b.op and not (fa or fb) and (numeric_equal(a.args[0], b.args[0]) or a.args[0] is b.args[0]):
        return True
    ne = numeric_equal(a, b)
    if ne:
        return False
    if ne is None:
        return None
    if picks(a) != picks(b):
        return None
    if fa or fb:
        # same constructors on both sides and a difference that is not a re-arrangement of them
        if fa != fb:
            return None
        ca, cb = counts(a), counts(b)
        if any(ca.get(h, 0) != cb.get(h, 0) for h in fa):
            return None
        if a.op in ("dot", "SOLVE", "T", "store", "cat", "flat", "sflat", "dflat", "fold", "wfold", "first", "sumdom"):
            # the constructors themselves are rearranged
            sub = []
            if a.op == b.op and len(a.args) == len(b.args):
                return True if symset(a) != symset(b) else None
            return None
    return True


_counts = {}


def counts(x):
    """how often family heads occur (tree count, capped)"""
    r = _counts.get(x)
    if r is None:
        r = {}
        h = head(x)
        if h in FAMILY:
            r[h] = 1
        for a in x.args:
            if isinstance(a, T):
                for k, v in counts(a).items():
                    r[k] = min(r.get(k, 0) + v, 10**6)
        _counts[x] = r
    return r


class Verdict:
    def __init__(self, status, why="", pair=None, case=None):
        self.status, self.why, self.pair, self.case = status, why, pair, case


def solved(c):
    """an equation as a substitution for one of its variables, or None"""
    if c.op == "eq":
        for x, y in (c.args, c.args[::-1]):
            if x.op in ("sym", "attr") and x not in subterms(y):
                return {x: y}
        return None
    p = c.args[0]
    if p.op == "poly":
        for m in p.args:
            k, x = t.coef_split(m)
            if x.op in ("sym", "attr"):
                rest = t.sub(x, t.div(p, t.num(k)))
                if x not in subterms(rest):
                    return {x: rest}
    elif p.op in ("sym", "attr"):
        return {p: t.ZERO}
    return None


def subterms(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T) and y not in seen:
            seen.add(y)
            todo.extend(y.args)
    return seen


_where = {}


def where(x):
    """indices applied to element-wise choices"""
    r = _where.get(x)
    if r is None:
        r = {x.args[1]} if x.op == "at" and x.args[0].op == "ite" else set()
        for z in x.args:
            if isinstance(z, T):
                r |= where(z)
        r = frozenset(r)
        _where[x] = r
    return r


def parts(a, b):
    """corresponding components of containers and arrays of literal shape, which are equal when those all are"""
    if a is b:
        return []
    if a.op == b.op and a.op in ("tuple", "list", "array") and len(a.args) == len(b.args) and \
            all(x is y if not (isinstance(x, T) and isinstance(y, T)) else True for x, y in zip(a.args, b.args)):
        out = []
        for x, y in zip(a.args, b.args):
            out += parts(x, y)
        return out
    return [(a, b)]


ORDERED = False
_unord = {}


def unordered(x):
    """dictionaries with literal keys, whatever the order they were filled in (Python compares them so)"""
    r = _unord.get(x)
    if r is None:
        args = tuple(unordered(z) if isinstance(z, T) else z for z in x.args)
        if x.op == "dict" and len(args) > 2 and all(k.op in ("str", "num") for k in args[::2]):
            args = tuple(z for kv in sorted(zip(args[::2], args[1::2]), key=lambda kv: kv[0].dig) for z in kv)
        r = x if args == x.args else t.rebuild(x.op, args) if x.op != "dict" else mk("dict", *args)
        _unord[x] = r
    return r


def compare_terms(a, b, vocab, unknown, maxsplit=7):
    """a: analysed, b: reference"""
    if a is b:
        return Verdict("equal")
    if not ORDERED:
        a, b = unordered(a), unordered(b)
    if a is b:
        return Verdict("equal")
    sub = None
    if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args):
        sub = list(zip(a.args, b.args))
    elif a.op == b.op == "dict" and a.args[::2] == b.args[::2]:
        sub = list(zip(a.args[1::2], b.args[1::2]))
    if sub is not None:
        # components of a container are judged one by one
        vs = [compare_terms(x, y, vocab, frozenset(h for h in heads(x) if h not in vocab), maxsplit) for x, y in sub]
        for st in ("different", "undecided"):
            for v in vs:
                if v.status == st:
                    return v
        return Verdict("equal")
    g = {}
    gates(a, g, set())
    gates(b, g, set())
    order = sorted(g, key=lambda c: (-g[c], c.dig))
    # conditions present on one side only come first
    worst = [None]
    n = [0]

    def rec(a, b, facts, depth):
        if a is b:
            return "equal"
        n[0] += 1
        if n[0] > 600:
            return "undecided"
        gg = {}
        gates(a, gg, set())
        gates(b, gg, set())
        if not gg:
            return leaf(a, b, facts)
        if depth >= maxsplit:
            return leaf(a, b, facts)
        # outermost gate first
        c = min(gg, key=lambda c: ("ite" in heads(c), -gg[c], c.dig))
        res = []
        for v in (True, False):
            f2 = dict(facts)
            f2[c] = v
            if contradictory(f2):
                continue
            m1, m2 = {}, {}
            a2, b2 = restrict(a, {c: v}, m1), restrict(b, {c: v}, m2)
            if v and c.op == "is" and not any(x in (NONE, TRUE, FALSE) for x in c.args):
                # one object: the same value
                x, y = sorted(c.args, key=lambda z: (z.n, z.dig), reverse=True)
                a2, b2 = t.subst(a2, {x: y}), t.subst(b2, {x: y})
            if v and c.op in ("eq", "eq0"):
                m = solved(c)
                if m:
                    a2, b2 = t.subst(a2, m), t.subst(b2, m)
            r = rec(a2, b2, f2, depth + 1)
            res.append(r)
            if r == "different":
                return r
        if "undecided" in res:
            return "undecided"
        return "equal"

    def leaf(a, b, facts):
        res = [part(x, y, facts) for x, y in parts(a, b)]
        for st in ("different", "undecided"):
            if st in res:
                return st
        return "equal"

    def part(a, b, facts):
        ds = []
        diffs(a, b, ds)
        if not ds:
            return "equal"
        und = False
        dec = None
        for x, y in ds:
            d = decisive(x, y, vocab, unknown)
            if d is None:
                und = True
            elif d:
                dec = (x, y)
        if dec is not None and not und:
            if not t.distinct(a, b):
                ne = numeric_equal(a, b)
                if ne:
                    return "equal"
                if ne is None:
                    und = True
        if dec is not None and not und:
            worst[0] = (dec, dict(facts))
            return "different"
        if und:
            if worst[0] is None:
                worst[0] = (ds[0], dict(facts))
            return "undecided"
        return "equal"

    r = rec(a, b, {}, 0)
    if r == "different" and where(a) != where(b):
        r = "undecided"
    if r == "different":
        return Verdict("different", pair=worst[0][0], case=worst[0][1])
    if r == "undecided":
        return Verdict("undecided", pair=worst[0][0] if worst[0] else None)
    return Verdict("equal")


def compare(oc, ref, vocab, over=True, rng=True, raises=True, eff=True, mut=True, ret=True):
    """list of (component, Verdict)"""
    unknown = frozenset()
    out = []

    def unk(a):
        return frozenset(h for h in heads(a) if h not in vocab)
    if oc.undecided is not None:
        return [("outcome", Verdict("undecided", oc.undecided))]
    if ret:
        out.append(("value", compare_terms(oc.ret, ref.ret, vocab, unk(oc.ret))))
    if raises:
        ra, rb = {}, {}
        for lst, d in ((oc.raises, ra), (ref.raises, rb)):
            for g, x in lst:
                nm = x.args[0] if x.op == "exc" else "?"
                if nm in ("AttributeError", "TypeError", "KeyError", "IndexError", "NameError") and False:
                    continue
                d[nm] = t.or_(d.get(nm, FALSE), g)
        for nm in sorted(set(ra) | set(rb)):
            a, b = ra.get(nm, FALSE), rb.get(nm, FALSE)
            if a is b:
                continue
            if nm in ("TypeError", "AttributeError", "KeyError", "IndexError", "NameError") :
                # implicit failures of look-ups: judged only when they hit everything
                if a is TRUE and b is not TRUE or b is TRUE and a is not TRUE:
                    pass
            v = compare_terms(a, b, vocab, unk(a))
            out.append(("raises " + nm, v))
    if eff and oc.eff is not None and ref.eff is not None:
        out.append(("effects", compare_terms(oc.eff, ref.eff, vocab, unk(oc.eff))))
    if rng and oc.rng is not None and ref.rng is not None:
        out.append(("random draws", compare_terms(oc.rng, ref.rng, vocab, unk(oc.rng))))
    if over:
        for k in sorted(set(oc.over) | set(ref.over), key=lambda z: z.dig):
            a, b = oc.over.get(k, k), ref.over.get(k, k)
            if a is not b:
                out.append(("state of " + t.show(k), compare_terms(a, b, vocab, unk(a))))
    if mut:
        extra = [m for m in oc.mut if m not in ref.mut and m.op != "owned"]      # see runner.one_writes
        if extra:
            out.append(("in-place change", Verdict("different", "in-place modification of " + ", ".join(t.show(m) for m in extra))))
    return out
