"""Hash-consed value terms with algebraic normalisation.

The value domain of the analysis (see DESIGN.md): every Python expression of the analysed
source is mapped to a term of a Herbrand domain quotiented by a fixed set of equalities
(commutative-ring arithmetic, exponent laws, comparison/boolean laws, list/dict/array
construction laws, alpha-equivalence of bound variables).  Two program points with the
same term compute the same value; nothing is ever executed."""
from fractions import Fraction
import hashlib
import math
import itertools

_TABLE = {}
_IDS = itertools.count()


class Undecided(Exception):
    """The analysis cannot (or refuses to) express something; the obligation is undecided."""


class T:
    __slots__ = ("op", "args", "dig", "bh", "n", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dig < other.dig


def _d(a):
    if isinstance(a, T):
        return a.dig
    return repr(a).encode()


def mk(op, *args):
    key = (op,) + tuple(a if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    h = hashlib.blake2b(op.encode(), digest_size=12)
    bh = 0
    n = 1
    for a in args:
        h.update(b"|")
        h.update(_d(a))
        if isinstance(a, T):
            n += a.n
            if a.bh > bh:
                bh = a.bh
    if op in BINDERS:
        bh = max(bh, args[0])
    t.dig, t.bh, t.n = h.digest(), bh, n
    t._fv = None
    if n > 100000:
        raise Undecided("term too large")
    _TABLE[key] = t
    return t


# binder ops: args = (height:int, ...terms) ; bound variables are mk('bv', height, k)
BINDERS = {"flat", "sumdom", "dflat", "sflat", "fold", "lam", "first", "wfold", "setflat"}

NONE = mk("none")
TRUE = mk("true")
FALSE = mk("false")
ELL = mk("ellipsis")


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return mk("sym", "nan")
        if x in (float("inf"), float("-inf")):
            return mk("sym", "inf") if x > 0 else neg(mk("sym", "inf"))
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO, ONE = num(0), num(1)
HALF = num(Fraction(1, 2))
PI = mk("pi")
EULER = mk("E")


def s(x):
    return mk("str", x)


def sym(name):
    return mk("sym", name)


def isnum(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


def isint(t):
    return t.op == "num" and t.args[0].denominator == 1


_fresh = itertools.count(1)


def fresh(tag="v"):
    return mk("fv", tag, next(_fresh))


def bv(h, k=0):
    return mk("bv", h, k)


# ---------------------------------------------------------------- polynomials
# mono: mk('mono', coef:Fraction, a1, e1, a2, e2, ...)   with at least one (atom,exp)
# poly: mk('poly', m1, m2, ...)   each a num/atom/mono, sorted by key

def _monos(t):
    """dict {((atom,exp),...): Fraction}"""
    if t.op == "num":
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == "mono":
        a = t.args
        return {tuple((a[i], a[i + 1]) for i in range(1, len(a), 2)): a[0]}
    if t.op == "poly":
        r = {}
        for m in t.args:
            r.update(_monos(m))
        return r
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, ONE),): Fraction(1)}


def _mono_t(key, c):
    if not key:
        return num(c)
    if c == 1 and len(key) == 1 and key[0][1] is ONE:
        return key[0][0]
    flat = []
    for a, e in key:
        flat += [a, e]
    return mk("mono", c, *flat)


def _build(d):
    items = [(k, c) for k, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        return _mono_t(*items[0])
    ts = sorted((_mono_t(k, c) for k, c in items), key=_mkey)
    return mk("poly", *ts)


def _mkey(t):
    # order monomials by their key, not their coefficient
    if t.op == "mono":
        return mk("mono", Fraction(1), *t.args[1:]).dig if t.args[0] != 1 else t.dig
    if t.op == "num":
        return b""
    return mk("mono", Fraction(1), t, ONE).dig


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "ite" and False:
            pass
        for k, c in _monos(t).items():
            d[k] = d.get(k, 0) + c
    return _build(d)


def neg(t):
    return _build({k: -c for k, c in _monos(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(k1, k2):
    """-> list of (key, coef) product; expanding positive integer powers of sums"""
    d = dict(k1)
    for a, e in k2:
        if a in d:
            d[a] = add(d[a], e)
        else:
            d[a] = e
    coef = Fraction(1)
    extra = []
    out = []
    for a, e in d.items():
        if e is ZERO:
            continue
        if a.op == "I" and isint(e):
            n = int(numval(e)) % 4
            if n >= 2:
                coef = -coef
            if n % 2:
                out.append((a, ONE))
            continue
        if a.op == "num":
            # numeric base: extract integer exponent part
            v = a.args[0]
            dm = _monos(e)
            c = dm.get((), Fraction(0))
            ip = c.numerator // c.denominator
            if ip and abs(ip) < 400:
                coef *= v ** ip
                e = add(e, num(-ip))
                if e is ZERO:
                    continue
            out.append((a, e))
        elif a.op in ("poly", "mono") and isint(e) and 0 < numval(e) <= 6:
            extra.append((a, int(numval(e))))
        else:
            out.append((a, e))
    out.sort(key=lambda x: x[0].dig)
    return tuple(out), coef, extra


MULCAP = 600


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        m = _monos(t)
        if not m:
            return ZERO
        if len(acc) * len(m) > MULCAP:
            # keep the product symbolic
            a, b = _build(acc), t
            acc = {tuple(sorted([(a, ONE), (b, ONE)], key=lambda x: x[0].dig)): Fraction(1)}
            continue
        r = {}
        for k1, c1 in acc.items():
            for k2, c2 in m.items():
                key, c, extra = _mono_mul(k1, k2)
                c = c * c1 * c2
                if extra:
                    p = _mono_t(key, c)
                    for a, n in extra:
                        for _ in range(n):
                            p = mul(p, a)
                    for k, cc in _monos(p).items():
                        r[k] = r.get(k, 0) + cc
                else:
                    r[key] = r.get(key, 0) + c
        acc = {k: c for k, c in r.items() if c}
    return _build(acc)


def _content(t):
    """poly -> (coef, monokey, primitive poly) with t = coef*mono*prim"""
    m = _monos(t)
    keys = list(m)
    common = None
    for k in keys:
        dd = {a: e for a, e in k}
        if common is None:
            common = dict(dd)
        else:
            for a in list(common):
                e = dd.get(a)
                if e is None:
                    del common[a]
                elif isnum(e) and isnum(common[a]):
                    if numval(e) < numval(common[a]):
                        common[a] = e
                elif e is not common[a]:
                    del common[a]
    # negative-exponent atoms missing elsewhere: bring to common denominator
    alla = {}
    for k in keys:
        for a, e in k:
            if isnum(e) and numval(e) < 0:
                alla[a] = min(alla.get(a, Fraction(0)), numval(e))
    for a, e in alla.items():
        if a not in common:
            common[a] = num(e)
    ck = tuple(sorted(common.items(), key=lambda x: x[0].dig))
    if ck:
        # term by term, so that a power of a sum cancels against the same sum
        inv = tuple((a, neg(e)) for a, e in ck)
        r = {}
        for k, c in m.items():
            key, c2, extra = _mono_mul(k, inv)
            p = _mono_t(key, c * c2)
            for a, n in extra:
                for _ in range(n):
                    p = mul(p, a)
            for k2, c3 in _monos(p).items():
                r[k2] = r.get(k2, 0) + c3
        t = _build({k: c for k, c in r.items() if c})
        if t.op != "poly":
            return Fraction(1), ck, t
    lead = t.args[0]
    c = lead.args[0] if lead.op in ("mono", "num") else Fraction(1)
    prim = _build({k: v / c for k, v in _monos(t).items()})
    return c, ck, prim


_SMALLP = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def _numpow(v, e):
    """v: positive Fraction, e: Fraction (non-integer)"""
    res = ONE
    for base, sign in ((v.numerator, 1), (v.denominator, -1)):
        n = base
        for p in _SMALLP:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                res = mul(res, _rawpow(num(p), Fraction(k) * e * sign))
        if n != 1:
            res = mul(res, _rawpow(num(n), e * sign))
    return res


def _rawpow(base, e):
    ip = e.numerator // e.denominator
    c = Fraction(1)
    if base.op == "num":
        c = base.args[0] ** ip
        e = e - ip
    if e == 0:
        return num(c)
    return _mono_t(((base, num(e)),), c)


def pow_(b, e):
    if b is TRUE:
        b = ONE
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if isnum(e):
        ev = numval(e)
        if isnum(b):
            bvv = numval(b)
            if ev.denominator == 1:
                if bvv == 0:
                    return ZERO if ev > 0 else _mono_t(((b, e),), Fraction(1))
                if abs(ev) > 400:
                    return _mono_t(((b, e),), Fraction(1))
                return num(bvv ** int(ev))
            if bvv > 0:
                return _numpow(bvv, ev)
            if bvv == 0:
                return ZERO
            return _mono_t(((b, e),), Fraction(1))
        if b.op == "poly":
            if ev.denominator == 1 and 0 < ev <= 6 and len(b.args) ** int(ev) <= MULCAP:
                r = b
                for _ in range(int(ev) - 1):
                    r = mul(r, b)
                return r
            c, ck, prim = _content(b)
            if prim is b:
                return _mono_t(((b, e),), Fraction(1))
            if ev.denominator == 1:
                pre = mul(num(c ** int(ev)), pow_(_mono_t(ck, Fraction(1)), e) if ck else ONE)
                return mul(pre, pow_(prim, e))
            if c > 0:
                return mul(_numpow(c, ev), pow_(_mono_t(ck, Fraction(1)), e) if ck else ONE, pow_(prim, e))
            prim = neg(prim)
            return mul(_numpow(-c, ev), pow_(_mono_t(ck, Fraction(1)), e) if ck else ONE, _powatom(prim, e))
        if b.op == "mono":
            c = b.args[0]
            pairs = [(b.args[i], b.args[i + 1]) for i in range(1, len(b.args), 2)]
            if ev.denominator == 1:
                r = num(c ** int(ev))
                for a, x in pairs:
                    r = mul(r, _apow(a, mul(x, e)))
                return r
            if c <= 0:
                return _mono_t(((b, e),), Fraction(1))
            r = _numpow(c, ev) if c != 1 else ONE
            for a, x in pairs:
                if isint(x) and int(numval(x)) % 2 == 0:
                    a = abs_(a)
                r = mul(r, _apow(a, mul(x, e)))
            return r
        return _apow(b, e)
    # symbolic exponent
    if b.op == "mono":
        c = b.args[0]
        if c > 0:
            r = pow_(num(c), e) if c != 1 else ONE
            for i in range(1, len(b.args), 2):
                r = mul(r, _apow(b.args[i], mul(b.args[i + 1], e)))
            return r
        return _mono_t(((b, e),), Fraction(1))
    if b.op == "poly":
        c, ck, prim = _content(b)
        if prim is not b and c > 0:
            return mul(pow_(num(c), e) if c != 1 else ONE, pow_(_mono_t(ck, Fraction(1)), e) if ck else ONE, pow_(prim, e))
        return _mono_t(((b, e),), Fraction(1))
    if b is ONE:
        return ONE
    return _apow(b, e)


def _powatom(b, e):
    return _mono_t(((b, e),), Fraction(1)) if b.op == "poly" else pow_(b, e)


def _apow(a, e):
    if a.op in ("poly", "mono", "num", "I"):
        key, c, extra = _mono_mul((), ((a, e),))
        r = _mono_t(key, c)
        for x, n in extra:
            for _ in range(n):
                r = mul(r, x)
        return r
    if e is ZERO:
        return ONE
    return _mono_t(((a, e),), Fraction(1))


def div(a, b):
    return mul(a, pow_(b, num(-1)))


def exp(x):
    if x.op == "ite":
        return ite(x.args[0], exp(x.args[1]), exp(x.args[2]))
    # exp(a*log(b)) = b**a
    m = _monos(x)
    r = ONE
    rest = {}
    for k, c in m.items():
        logs = [(a, e) for a, e in k if a.op == "log" and e is ONE]
        if len(logs) == 1:
            others = tuple((a, e) for a, e in k if a is not logs[0][0])
            r = mul(r, pow_(logs[0][0].args[0], _mono_t(others, c)))
        else:
            rest[k] = c
    e = _build(rest)
    return mul(r, pow_(EULER, e)) if e is not ZERO else r


def _perfect(n):
    """n = b**k with k maximal"""
    for k in range(n.bit_length(), 1, -1):
        b = round(n ** (1.0 / k)) if n < 2**1000 else 0
        for c in (b - 1, b, b + 1):
            if c > 1 and c**k == n:
                return c, k
    return n, 1


_PRIMES = [q for q in range(2, 1000) if all(q % d for d in range(2, int(q**0.5) + 1))]


def log(x):
    if x.op == "ite":
        return ite(x.args[0], log(x.args[1]), log(x.args[2]))
    if x is EULER:
        return ONE
    if x is ONE:
        return ZERO
    if x.op == "num":
        v = numval(x)
        if v > 0:
            r = ZERO
            # basis of the logarithms of integers: 2, 10, and the odd primes but 5 (log 5 = log 10 - log 2)
            pw = {}
            for base, sign in ((v.numerator, 1), (v.denominator, -1)):
                n = base
                for q in _PRIMES:
                    if q * q > n:
                        break
                    while n % q == 0:
                        n //= q
                        pw[q] = pw.get(q, 0) + sign
                if n != 1:
                    b_, k = _perfect(n)
                    pw[b_] = pw.get(b_, 0) + k * sign
            k5 = pw.pop(5, 0)
            if k5:
                pw[10] = k5
                pw[2] = pw.get(2, 0) - k5
            for b_, k in sorted(pw.items()):
                if k:
                    r = add(r, mul(num(k), mk("log", num(b_))))
            return r
        return mk("log", x)
    if x.op == "mono":
        c = x.args[0]
        if c > 0:
            r = log(num(c)) if c != 1 else ZERO
            for i in range(1, len(x.args), 2):
                a, e = x.args[i], x.args[i + 1]
                r = add(r, mul(e, log(a) if a.op not in ("poly",) else mk("log", a)))
            return r
        return mk("log", x)
    if x.op == "poly":
        c, ck, prim = _content(x)
        if prim is x or prim.op != "poly":
            if prim.op != "poly":
                return add(log(num(c)) if c > 0 else mk("log", num(c)), log(mul(_mono_t(ck, Fraction(1)), prim)))
            return mk("log", x)
        if c > 0:
            return add(log(num(c)), log(_mono_t(ck, Fraction(1))) if ck else ZERO, log(prim))
        return mk("log", x)
    return mk("log", x)


LN10 = None


def log10(x):
    return div(log(x), log(num(10)))


def abs_(x):
    if isnum(x):
        return num(abs(numval(x)))
    if x.op == "abs":
        return x
    if x.op == "mono":
        r = num(abs(x.args[0]))
        for i in range(1, len(x.args), 2):
            a, e = x.args[i], x.args[i + 1]
            r = mul(r, _apow(a if (isint(e) and numval(e) % 2 == 0) or a in (PI, EULER) or a.op == "num" else abs_(a), e))
        return r
    if x in (PI, EULER):
        return x
    if x.op == "poly":
        # abs(-p) = abs(p)
        lead = x.args[0]
        c = lead.args[0] if lead.op in ("mono", "num") else 1
        if c < 0:
            x = neg(x)
    return mk("abs", x)


def trig(name, x):
    # even/odd symmetry
    if x.op == "ite":
        return ite(x.args[0], trig(name, x.args[1]), trig(name, x.args[2]))
    if x is ZERO:
        return {"cos": ONE, "sin": ZERO, "tan": ZERO, "arctan": ZERO, "arcsin": ZERO}.get(name, mk(name, x))
    c = Fraction(1)
    if x.op in ("mono", "num"):
        c = x.args[0]
    elif x.op == "poly":
        lead = x.args[0]
        c = lead.args[0] if lead.op in ("mono", "num") else Fraction(1)
    if name == "cos" and c < 0:
        return mk("cos", neg(x))
    if name in ("sin", "tan", "arctan", "arcsin") and c < 0:
        return neg(mk(name, neg(x)))
    return mk(name, x)


def coef_split(t):
    """t = c * t' with c a rational"""
    if t.op == "num":
        return t.args[0], ONE
    if t.op == "mono":
        c = t.args[0]
        return c, _mono_t(tuple((t.args[i], t.args[i + 1]) for i in range(1, len(t.args), 2)), Fraction(1))
    if t.op == "poly":
        lead = t.args[0]
        c = lead.args[0] if lead.op in ("mono", "num") else Fraction(1)
        return c, _build({k: v / c for k, v in _monos(t).items()})
    return Fraction(1), t


# ---------------------------------------------------------------- booleans
def is_bool(t):
    return t.op in ("pos", "nneg", "eq", "eq0", "not", "and", "or", "in", "truth", "isinst", "true", "false", "raises",
                    "is", "any", "all", "hasattr", "callable", "strpred", "bvbool", "issub")


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "pos":
        return nneg(neg(c.args[0]))
    if c.op == "nneg":
        return pos(neg(c.args[0]))
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    if c.op == "ite":
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            out += c.args
        else:
            out.append(c)
    st = []
    for c in out:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in st:
            continue
        st.append(c)
    for c in st:
        if not_(c) in st:
            return FALSE
    if not st:
        return TRUE
    if len(st) == 1:
        return st[0]
    return mk("and", *sorted(st))


def or_(*cs):
    out = []
    for c in cs:
        if c.op == "or":
            out += c.args
        else:
            out.append(c)
    st = []
    for c in out:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in st:
            continue
        st.append(c)
    for c in st:
        if not_(c) in st:
            return TRUE
    if not st:
        return FALSE
    if len(st) == 1:
        return st[0]
    return mk("or", *sorted(st))


def _posnorm(d):
    if d.op == "num":
        return d
    c, p = coef_split(d)
    return p if c > 0 else neg(p)


_CONST = {}


def constsign(d):
    """sign of a closed expression in numbers, pi, e, roots and elementary functions, when its value is far from zero; else None"""
    if d.op not in ("mono", "poly", "pi", "E", "exp", "log", "sin", "cos"):
        return None
    if d not in _CONST:
        try:
            v, m = _constval(d)
            _CONST[d] = (1 if v > 0 else -1) if abs(v) > 1e-9 * m else None
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            _CONST[d] = None
    return _CONST[d]


def _constval(d):
    """(value, magnitude of the largest intermediate sum)"""
    if d.op == "num":
        v = float(d.args[0])
        return v, abs(v)
    if d.op == "pi":
        return math.pi, math.pi
    if d.op == "E":
        return math.e, math.e
    if d.op in ("exp", "log", "sin", "cos") and len(d.args) == 1:
        v, m = _constval(d.args[0])
        if m > 50 or abs(v) < 1e-9 * m:
            raise ValueError
        r = getattr(math, d.op)(v)
        return r, max(abs(r), m if d.op != "exp" else 0)
    if d.op == "mono":
        v, m = float(d.args[0]), abs(float(d.args[0]))
        for i in range(1, len(d.args), 2):
            b, bm = _constval(d.args[i])
            e, em = _constval(d.args[i + 1])
            if abs(b) < 1e-9 * bm or b < 0 and e != int(e) or abs(e) > 50:
                raise ValueError
            f = b ** e
            v, m = v * f, m * abs(f) * max(1.0, (bm / abs(b)) * max(1.0, abs(e)))
        return v, m
    if d.op == "poly":
        vs = [_constval(a) for a in d.args]
        v = sum(x for x, _ in vs)
        return v, max(m for _, m in vs) * len(vs)
    raise ValueError


def pos(d):
    if d.op == "num":
        return TRUE if numval(d) > 0 else FALSE
    sg = constsign(d)
    if sg is not None:
        return TRUE if sg > 0 else FALSE
    if d.op == "sym" and d.args[0] == "inf":
        return TRUE
    if _infsign(d):
        return TRUE if _infsign(d) > 0 else FALSE
    d = _posnorm(d)
    if nonneg_term(neg(d)):
        return FALSE
    return mk("pos", d)


def nneg(d):
    if d.op == "num":
        return TRUE if numval(d) >= 0 else FALSE
    sg = constsign(d)
    if sg is not None:
        return TRUE if sg > 0 else FALSE
    if _infsign(d):
        return TRUE if _infsign(d) > 0 else FALSE
    d = _posnorm(d)
    if nonneg_term(d):
        return TRUE
    return mk("nneg", d)


def _infsign(d):
    """sign of a sum that contains +-inf exactly once (finite otherwise): comparisons with inf"""
    m = _monos(d)
    hits = [(k, c) for k, c in m.items() if len(k) == 1 and k[0][0].op == "sym" and k[0][0].args[0] == "inf"]
    if len(hits) == 1:
        return 1 if hits[0][1] > 0 else -1
    return 0


def nonneg_term(d):
    """syntactically certain d >= 0 (lengths only)"""
    for k, c in _monos(d).items():
        if c < 0:
            return False
        if k and not (len(k) == 1 and k[0][0].op in ("len",) and k[0][1] is ONE):
            return False
    return True


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return nneg(sub(b, a))


ARITH = ("num", "mono", "poly")


def distinct(a, b):
    """provably different values"""
    if a is b:
        return False
    if a.op == b.op and a.op in ("str", "num", "bytes"):
        return True
    if a.op == b.op and a.op in ("call", "meth") and len(a.args) == len(b.args) == 2 and a.args[1] is not b.args[1] and a.args[0] == b.args[0]:
        # the hash and the raw bytes of two literals differ when the literals do (hash collisions aside)
        x, y = a.args[1], b.args[1]
        if a.args[0] in ("builtins.hash", "tobytes"):
            if x.op == "array" and y.op == "array":
                x, y = x.args[0], y.args[0]
            return distinct(x, y)
    if a.op == b.op == "other":
        return distinct(a.args[0], b.args[0])
    if KNOWN and KNOWN.get(mk("eq", *((a, b) if a.dig <= b.dig else (b, a)))) is FALSE:
        return True
    lit = ("str", "num", "none", "true", "false", "tuple", "list", "dict", "bytes")
    la, lb = a.op in lit, b.op in lit
    if la and lb:
        if a.op != b.op:
            if {a.op, b.op} <= {"num", "true", "false"}:
                va = numval(a) if a.op == "num" else Fraction(a is TRUE)
                vb = numval(b) if b.op == "num" else Fraction(b is TRUE)
                return va != vb
            return True
        if a.op in ("tuple", "list"):
            return len(a.args) != len(b.args) or any(distinct(x, y) for x, y in zip(a.args, b.args))
        if a.op == "dict" and all(k.op in ("str", "num") for k in a.args[::2] + b.args[::2]):
            da, db = dict(zip(a.args[::2], a.args[1::2])), dict(zip(b.args[::2], b.args[1::2]))
            return da.keys() != db.keys() or any(distinct(v, db[k]) for k, v in da.items())
        return False
    if a.op in ("scat", "str") and b.op in ("scat", "str"):
        pa = list(a.args) if a.op == "scat" else [a]
        pb = list(b.args) if b.op == "scat" else [b]
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
        # common literal prefixes / suffixes
        if all(x.op == "str" for x in pa + pb):
            return "".join(x.args[0] for x in pa) != "".join(x.args[0] for x in pb)
        if not pa or not pb:
            return any(x.op == "str" and x.args[0] for x in pa + pb)
        if pa[0].op == "str" and pb[0].op == "str":
            x, y = pa[0].args[0], pb[0].args[0]
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return True
        if pa[-1].op == "str" and pb[-1].op == "str":
            x, y = pa[-1].args[0], pb[-1].args[0]
            k = min(len(x), len(y))
            if k and x[-k:] != y[-k:]:
                return True
        return False
    if a.op in ("ref", "new", "pv", "klass") and b.op in ("none", "str", "num", "true", "false", "list", "dict", "tuple"):
        return True
    if b.op in ("ref", "new", "pv", "klass") and a.op in ("none", "str", "num", "true", "false", "list", "dict", "tuple"):
        return True
    if a.op == "ref" and b.op == "ref":
        return True
    if a.op == "pv" and b.op == "pv":
        return True
    if NONE in (a, b):
        o = b if a is NONE else a
        if o.op in ("mono", "poly", "scat", "flat", "cat", "tuple", "store", "sflat", "dset", "dflat", "slice", "len", "zeros",
                    "log", "cos", "sin", "abs", "setof", "lam", "sumdom", "notnone", "shape", "keys", "sorted", "array", "npop", "dot", "new", "pymin", "pymax"):
            return True
        if o.op == "call" and o.args[0].startswith("np.") and o.args[0] != "np.load":
            return True
        if o.op == "attr" and o.args[1] in ("dtype", "nbytes", "itemsize"):
            return True
    d = None
    if a.op in ARITH or b.op in ARITH:
        d = sub(a, b)
        if d.op == "num" and numval(d) != 0:
            return True
    return False


KNOWN = {}      # equalities assumed or excluded in the context of an obligation


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == b.op == "other":
        return eq(a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if distinct(a, b):
        return FALSE
    if a.op in ("tuple", "list") and b.op == a.op and len(a.args) == len(b.args):
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "scat" and b.op == "scat":
        pa, pb = list(a.args), list(b.args)
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
        a, b = scat(*pa), scat(*pb)
        if a is b:
            return TRUE
        if distinct(a, b):
            return FALSE
    if (a.op in ARITH or b.op in ARITH) and not (is_bool(a) or is_bool(b)):
        d = sub(a, b)
        if d.op == "num":
            return TRUE if numval(d) == 0 else FALSE
        if _infsign(d) or constsign(d) is not None:
            return FALSE
        c, p = coef_split(d)
        return mk("eq0", p)
    if a.dig > b.dig:
        a, b = b, a
    r = mk("eq", a, b)
    return KNOWN.get(r, r)


def truth(x):
    if x in (TRUE, FALSE):
        return x
    if is_bool(x):
        return x
    if x.op == "ite":
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x is NONE:
        return FALSE
    if x.op == "num":
        return TRUE if numval(x) else FALSE
    if x.op == "str":
        return TRUE if x.args[0] else FALSE
    if x.op in ("list", "tuple", "dict"):
        return TRUE if x.args else FALSE
    if x.op == "cat" and any(truth(a) is TRUE for a in x.args):
        return TRUE
    if x.op == "scat" and any(p.op == "str" and p.args[0] for p in x.args):
        return TRUE
    if x.op in ("pv", "lam", "new", "pi", "E"):
        return TRUE
    if x.op == "len":
        return truth(x.args[0]) if x.args[0].op not in ("sym", "call", "attr", "at", "meth", "fv", "bv") else mk("truth", x.args[0])
    if x.op == "flat":
        return any_(x)
    if x.op == "dset":
        return TRUE
    if x.op == "dflat":
        return truth(len_(keys(x)))
    if x.op == "setof":
        return truth(x.args[0])
    return mk("truth", x)


def any_(x):
    """nonempty list / any over list of booleans.  Canonical: mk('any', h, dom, boolbody) via flat"""
    return mk("truth", x)


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ite":
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if (is_bool(a) or a in (TRUE, FALSE)) and (is_bool(b) or b in (TRUE, FALSE)):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == b.op and len(a.args) == len(b.args) and a.args:
        if a.op in ("list", "tuple"):
            return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "dict" and a.args[::2] == b.args[::2]:
            return mk("dict", *[x if x is y else ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "ite":
        a = under(a, c, True)
    if b.op == "ite":
        b = under(b, c, False)
    if a is b:
        return a
    return mk("ite", c, a, b)


_UNDER = {}


def under(x, c, val):
    """x simplified along its spine of alternatives, given the truth of c"""
    if x.op != "ite":
        return x
    k = (x, c, val)
    r = _UNDER.get(k)
    if r is not None:
        return r
    d, a, b = x.args
    if d is c or (d.op == "not" and d.args[0] is c):
        r = under(a if (d is c) == val else b, c, val)
    else:
        a2, b2 = under(a, c, val), under(b, c, val)
        r = x if a2 is a and b2 is b else (a2 if a2 is b2 else ite(d, a2, b2))
    if len(_UNDER) > 400000:
        _UNDER.clear()
    _UNDER[k] = r
    return r


# ---------------------------------------------------------------- strings
def scat(*parts):
    out = []
    for p in parts:
        if p.op == "scat":
            sub_ = list(p.args)
        elif p.op == "num" and p.args[0].denominator == 1:
            sub_ = [s(str(p.args[0].numerator))]
        else:
            sub_ = [p]
        for q in sub_:
            if q.op == "str" and q.args[0] == "":
                continue
            if out and q.op == "str" and out[-1].op == "str":
                out[-1] = s(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return s("")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    if len(out) == 1 and kind(out[0]) == "str":
        return out[0]
    return mk("scat", *out)


def join(sep, L):
    if L.op in ("list", "tuple"):
        parts = []
        for i, x in enumerate(L.args):
            if i:
                parts.append(sep)
            parts.append(x)
        if not parts:
            return s("")
        if len(L.args) == 1:
            return L.args[0]
        return scat(*parts)
    if L.op == "ite":
        return ite(L.args[0], join(sep, L.args[1]), join(sep, L.args[2]))
    if L.op == "cat":
        # distribute conditional pieces
        for i, p in enumerate(L.args):
            if p.op == "ite":
                a = cat(*(L.args[:i] + (p.args[1],) + L.args[i + 1:]))
                b = cat(*(L.args[:i] + (p.args[2],) + L.args[i + 1:]))
                return ite(p.args[0], join(sep, a), join(sep, b))
    return mk("join", sep, L)


# ---------------------------------------------------------------- sequences
def lst(*items):
    return mk("list", *items)


def tup(*items):
    return mk("tuple", *items)


def kind(t):
    op = t.op
    if op in ("str", "scat", "join", "strf"):
        return "str"
    if op in ("list", "cat", "flat", "sorted", "keys", "values", "items"):
        return "list"
    if op == "tuple":
        return "tuple"
    if op in ("dict", "dset", "dflat"):
        return "dict"
    if op in ("num", "mono", "poly", "len", "pi", "E"):
        return "num"
    if op == "setof":
        return "set"
    if op == "ite":
        k1, k2 = kind(t.args[1]), kind(t.args[2])
        return k1 if k1 == k2 else "?"
    if op in ("mapseq", "rep", "ldel"):
        return "list" if op != "rep" else kind(t.args[0])
    if op == "at" and t.args[1].op == "slice":
        k = kind(t.args[0])
        return k if k in ("list", "str", "tuple") else "?"
    if is_bool(t):
        return "bool"
    return "?"


def cat(*ls):
    out = []
    for l in ls:
        if l.op == "cat":
            out += l.args
        else:
            out.append(l)
    res = []
    for l in out:
        if l.op in ("list", "tuple"):
            if not l.args:
                continue
            if res and res[-1].op == "list":
                res[-1] = lst(*(res[-1].args + l.args))
                continue
            l = lst(*l.args)
        res.append(l)
    if not res:
        return lst()
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


def len_(x):
    op = x.op
    if op == "rec":
        return x.args[0]
    if op in ("ones", "zeros"):
        a = x.args[-1]
        if a.op == "tuple" and a.args:
            return a.args[0]
        if a.op == "num" or a.op == "len":
            return a
    if op in ("list", "tuple"):
        return num(len(x.args))
    if op == "str":
        return num(len(x.args[0]))
    if op == "dict":
        return num(len(x.args) // 2)
    if op == "cat":
        return add(*[len_(a) for a in x.args])
    if op == "ite":
        return ite(x.args[0], len_(x.args[1]), len_(x.args[2]))
    if op == "flat":
        h, dom, body = x.args
        n = _singletons(body)
        if n is not None and len(dom.args) == 1:
            return mul(num(n), dom.args[0]) if n != 1 else dom.args[0]
    if op == "sorted":
        return len_(x.args[0])
    if op == "keys":
        return len_(x.args[0])
    if op in ("values", "items"):
        return len_(keys(x.args[0]))
    if op in ("dflat", "dset"):
        return len_(keys(x)) if op == "dflat" else mk("len", x)
    if op == "array":
        return len_(x.args[0])
    if op == "known_len":
        return x.args[1]
    if op in ("store", "sflat"):
        return len_(x.args[-1] if op == "sflat" else x.args[0])
    if op == "npop" and x.args[0] in ("np.ones_like", "np.zeros_like"):
        return len_(x.args[1])
    if op == "zeros":
        sh = x.args[1]
        return sh.args[0] if sh.op == "tuple" and sh.args else sh
    return mk("len", x)


def _singletons(body):
    if body.op in ("list", "tuple"):
        return len(body.args)
    return None


def slc(a=NONE, b=NONE, c=NONE):
    if c is ONE:
        c = NONE
    if a is ZERO:
        a = NONE
    return mk("slice", a, b, c)


FULL = slc()


def _idx_disjoint(i, j):
    """indices that select provably disjoint elements"""
    if i is j:
        return False
    if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
        return any(_idx_disjoint(a, b) for a, b in zip(i.args, j.args))
    if isint(i) and isint(j):
        a, b = numval(i), numval(j)
        return a != b and (a >= 0) == (b >= 0)
    if i.op == "slice" and j.op == "slice":
        if i.args[2] is j.args[2] and isint(i.args[2]):
            st = int(numval(i.args[2]))
            a = 0 if i.args[0] is NONE else (int(numval(i.args[0])) if isint(i.args[0]) else None)
            b = 0 if j.args[0] is NONE else (int(numval(j.args[0])) if isint(j.args[0]) else None)
            if a is not None and b is not None and a >= 0 and b >= 0 and (a - b) % st:
                return True
        if i.args[2] is NONE and j.args[2] is NONE:
            if i.args[1] is not NONE and i.args[1] is j.args[0]:
                return True
            if j.args[1] is not NONE and j.args[1] is i.args[0]:
                return True
            for p, q in ((i, j), (j, i)):
                if isint(p.args[1]) and isint(q.args[0]) and 0 <= numval(p.args[1]) <= numval(q.args[0]):
                    return True
    for p, q in ((i, j), (j, i)):
        if isint(p) and q.op == "slice" and q.args[2] is NONE and numval(p) >= 0:
            if isint(q.args[0]) and numval(q.args[0]) > numval(p):
                return True
            if isint(q.args[1]) and 0 <= numval(q.args[1]) <= numval(p):
                return True
    if i.op == "str" and j.op == "str":
        return True
    return False


LITS = None     # constant arrays (set by the interpreter in charge)


def store(base, idx, val):
    if base.op == "rec" and idx.op == "str":
        return dset(base, idx, val)
    if base.op in ("dict", "dset", "dflat") or kind(idx) == "str":
        return dset(base, idx, val)
    if base.op == "ite":
        return ite(base.args[0], store(base.args[1], idx, val), store(base.args[2], idx, val))
    if base.op == "list" and isint(idx):
        i = int(numval(idx))
        n = len(base.args)
        if -n <= i < n:
            items = list(base.args)
            items[i] = val
            return lst(*items)
    if val is at_raw(base, idx):
        return base
    k = idx.args[0] if idx.op == "tuple" and idx.args else idx
    if k.op == "array" and k.args[0].op == "list" and k.args[0].args and all(x is FALSE for x in k.args[0].args):
        return base  # nothing selected
    if base.op == "zeros" and base.args[-1].op == "tuple" and len(base.args[-1].args) == 2 and idx.op == "tuple" and len(idx.args) == 2:
        # a whole matrix written into an empty one of its size
        (n, m), (i, j) = base.args[-1].args, idx.args
        same = m.op == "at" and m.args[1] is ONE and m.args[0].op == "shape" and m.args[0].args[0] is val
        if not same and LITS is not None and val.op in ("array", "sym", "mono", "poly", "attr"):
            sh = LITS.ext.shape(val)
            same = sh.op == "tuple" and len(sh.args) == 2 and sh.args[1] is m and (sh.args[0] is n or isint(sh.args[0]) and sh.args[0] is not ONE)
        if same and (i is FULL or (i.op == "ones" and i.args[-1] is n)) \
                and (j is FULL or (j.op == "slice" and j.args[0] in (NONE, ZERO) and j.args[1] is m and j.args[2] in (NONE, ONE))):
            return val
    if base.op in ("array", "zeros", "ones", "eye", "diag") and LITS is not None:
        r = LITS.store(base, idx, val)
        if r is not None:
            return r
    # push through disjoint stores to canonical order; overwrite equal index
    if base.op == "store":
        b0, i0, v0 = base.args
        if i0 is idx:
            return store(b0, idx, val)
        if _idx_disjoint(i0, idx) and idx.dig < i0.dig:
            inner = store(b0, idx, val)
            return mk("store", inner, i0, v0)
    return mk("store", base, idx, val)


def at_raw(base, idx):
    return mk("at", base, idx)


def _condleaves(c):
    if c.op in ("and", "or", "not"):
        out = []
        for x in c.args:
            out += _condleaves(x)
        return out
    return [c]


def _at_where(base, idx):
    """element of an element-wise choice: the condition is an array too"""
    c = base.args[0]
    nd = None
    leaves = _condleaves(c)

    def dim(x):
        if x.op in ("str", "none", "true", "false", "bytes", "num", "pv", "ref", "dict", "tuple"):
            return 0
        if x.op == "list":
            return 1
        n = LITS.ext.ndim(x)
        return int(numval(n)) if isint(n) else None

    for l in leaves:
        if l.op == "truth" and l.args[0].op in ("array", "zeros", "ones", "sym", "attr", "at") or l.op in ("eq", "eq0", "pos", "nneg"):
            for x in l.args:
                if isinstance(x, T):
                    n = dim(x)
                    if n:
                        nd = n if nd is None else max(nd, n)
    if nd is None:
        return None
    if nd != 1 or idx.op in ("tuple", "none", "ellipsis"):
        return mk("at", base, idx)

    def pick(x):
        n = dim(x)
        if n == 0:
            return x
        if n == 1:
            return at(x, idx)
        raise KeyError

    def cond(l):
        if l.op == "not":
            return not_(cond(l.args[0]))
        if l.op in ("and", "or"):
            return (and_ if l.op == "and" else or_)(*[cond(x) for x in l.args])
        if l.op == "truth":
            return truth(pick(l.args[0]))
        if l.op == "eq":
            return eq(pick(l.args[0]), pick(l.args[1]))
        if all(isinstance(x, T) for x in l.args):
            ys = []
            for x in l.args:
                if x.op in ("mono", "poly"):
                    if dim(x) is None:
                        raise KeyError
                    tot = []
                    for k, co in _monos(x).items():
                        tot.append(mul(num(co), *[pow_(pick(a), e) for a, e in k]))
                    ys.append(add(*tot))
                else:
                    ys.append(pick(x))
            return {"eq0": lambda d: eq(d, ZERO), "pos": pos, "nneg": nneg}[l.op](*ys)
        raise KeyError
    try:
        return ite(cond(c), pick(base.args[1]), pick(base.args[2]))
    except KeyError:
        return mk("at", base, idx)


def at(base, idx):
    op = base.op
    if idx.op == "tuple" and len(idx.args) == 1:
        idx = idx.args[0]
    if idx is ELL:
        return base
    if idx.op == "tuple":
        # drop trailing full slices
        a = list(idx.args)
        while len(a) > 1 and a[-1] is FULL:
            a.pop()
        if len(a) != len(idx.args):
            return at(base, tup(*a) if len(a) > 1 else a[0])
    if idx is FULL:
        return base
    if op == "ite":
        if LITS is not None and idx.op != "str":
            r = _at_where(base, idx)
            if r is not None:
                return r
        return ite(base.args[0], at(base.args[1], idx), at(base.args[2], idx))
    if idx.op == "ite":
        return ite(idx.args[0], at(base, idx.args[1]), at(base, idx.args[2]))
    if op in ("list", "tuple"):
        if isint(idx):
            i = int(numval(idx))
            if -len(base.args) <= i < len(base.args):
                return base.args[i]
        if idx.op == "slice" and all(x is NONE or isint(x) for x in idx.args):
            v = [None if x is NONE else int(numval(x)) for x in idx.args]
            return mk(op, *base.args[slice(*v)])
    if op == "array":
        if idx.op == "num" and base.args[0].op in ("list", "tuple"):
            r = at(base.args[0], idx)
            return mk("array", r) if r.op == "list" else r
    if op in ("array", "zeros", "ones", "eye", "diag") and LITS is not None and base.op not in ("list", "tuple"):
        r = LITS.at(base, idx)
        if r is not None:
            return r
    if op in ("zeros", "ones") and base.args[-1].op not in ("shape", "tuple", "list") and kind(base.args[-1]) in ("num", "?"):
        # new axes of a constant vector
        ks = idx.args if idx.op == "tuple" else (idx,)
        if NONE in ks and all(k is NONE or k is FULL for k in ks) and sum(k is FULL for k in ks) <= 1:
            dims = [base.args[-1] if k is FULL else ONE for k in ks]
            if FULL not in ks:
                dims.append(base.args[-1])
            return mk(op, *(base.args[:-1] + (tup(*dims),)))
    if op == "INV" and idx.op == "tuple" and len(idx.args) == 2 and all(
        k.op == "array" and k.args[0].op == "list" and k.args[0].args and all(x is FALSE for x in k.args[0].args) for k in idx.args
    ):
        return mk("array", lst())
    if op == "INV" and idx.op == "tuple" and len(idx.args) == 2 and all(isint(x) for x in idx.args) and LITS is not None:
        # the inverse of a symmetric matrix is symmetric
        i, j = (int(numval(x)) for x in idx.args)
        if i > j >= 0 and LITS.symmetric(base.args[0]):
            return at(base, tup(idx.args[1], idx.args[0]))
    if op == "cat" and isint(idx):
        i = int(numval(idx))
        if i >= 0:
            for p in base.args:
                if p.op == "list":
                    if i < len(p.args):
                        return p.args[i]
                    i -= len(p.args)
                else:
                    break
        else:
            for p in reversed(base.args):
                if p.op == "list":
                    if -i <= len(p.args):
                        return p.args[i]
                    i += len(p.args)
                else:
                    break
    if op == "dict":
        return dget(base, idx)
    if op in ("dset", "dflat"):
        return dget(base, idx)
    if op == "flat":
        h, dom, body = base.args
        if _singletons(body) == 1 and (idx.op not in ("slice", "tuple", "none", "list")) and not (isnum(idx) and numval(idx) < 0):
            return open_(base, (idx,)).args[0]
    if op == "store":
        b0, i0, v0 = base.args
        if i0 is idx:
            return v0
        if _idx_disjoint(i0, idx):
            return at(b0, idx)
    if op == "slice" :
        return mk("at", base, idx)
    if op == "at" and base.args[1].op == "slice" and idx.op not in ("tuple", "slice", "none", "ellipsis"):
        # (x[a:b])[i] = x[a+i] for nonnegative constant / bound indices
        a, b, c = base.args[1].args
        if c is NONE and (a is NONE or nonneg_idx(a)) and nonneg_idx(idx):
            return at(base.args[0], add(a, idx) if a is not NONE else idx)
    if op == "at" and base.args[1].op == "tuple" and base.args[1].args[0].op == "slice" and isint(idx) and numval(idx) >= 0 and (
            all(isint(k) for k in base.args[1].args[1:])):
        # row of a leading slice with the other axes fixed
        a, b, c = base.args[1].args[0].args
        if c is NONE and (a is NONE or nonneg_idx(a)):
            return at(base.args[0], tup(add(a, idx) if a is not NONE else idx, *base.args[1].args[1:]))
    if op == "known_len" and idx.op == "slice":
        pass
    if op in ("mono", "poly", "exp", "log", "cos", "sin", "tan", "arctan", "abs") and LITS is not None and idx.op not in ("tuple", "none", "ellipsis", "str"):
        r = _at_elem(base, idx)
        if r is not None:
            return r
    if op == "mono" and base.args[0] != 1:
        c, p = coef_split(base)
        return mul(num(c), at(p, idx))
    return mk("at", base, idx)


def _flatdim(x):
    """0 / 1 for values known to be scalars / one-dimensional arrays"""
    if x.op in ("num", "pi", "E", "I"):
        return 0
    n = LITS.ext.ndim(x)
    if n is ZERO:
        return 0
    if n is ONE:
        return 1
    return None


def _at_elem(x, idx):
    """element-wise expression of one-dimensional arrays and scalars: the index goes to the leaves"""
    if x.op == "poly":
        out = [_at_elem(z, idx) for z in x.args]
        return None if None in out else add(*out)
    if x.op == "mono":
        out = [num(x.args[0])]
        for i in range(1, len(x.args), 2):
            b, e = _at_elem(x.args[i], idx), _at_elem(x.args[i + 1], idx)
            if b is None or e is None:
                return None
            out.append(pow_(b, e))
        return mul(*out)
    if x.op in ("exp", "log", "cos", "sin", "tan", "arctan", "abs"):
        b = _at_elem(x.args[0], idx)
        if b is None:
            return None
        return log(b) if x.op == "log" else abs_(b) if x.op == "abs" else exp(b) if x.op == "exp" else trig(x.op, b)
    d = _flatdim(x)
    if d == 0:
        return x
    return at(x, idx) if d == 1 else None


def nonneg_idx(t):
    for k, c in _monos(t).items():
        if c < 0:
            return False
        for a, e in k:
            if a.op not in ("bv", "fv", "len"):
                return False
    return True


# ---------------------------------------------------------------- dicts
def dct(*kv):
    """literal dict from key, value, key, value (later wins; position of first)"""
    ks, vs = [], {}
    for i in range(0, len(kv), 2):
        if kv[i] not in vs:
            ks.append(kv[i])
        vs[kv[i]] = kv[i + 1]
    out = []
    for k in ks:
        out += [k, vs[k]]
    return mk("dict", *out)


def dset(d, k, v):
    if d.op == "rec" and k.op == "str":
        ks = d.args[1].args
        old = ks[2 * ks[::2].index(k) + 1] if k in ks[::2] else None
        if old is not None and old.op == "zeros" and old.args[0] != show(mk("attr", v, "dtype")):
            v = mk("call", "np.astype", v, s(old.args[0]))
        return mk("rec", d.args[0], dset(d.args[1], k, v))
    if d.op == "ite":
        return ite(d.args[0], dset(d.args[1], k, v), dset(d.args[2], k, v))
    if k.op == "ite":
        return ite(k.args[0], dset(d, k.args[1], v), dset(d, k.args[2], v))
    if d.op == "dict":
        ks = d.args[::2]
        if k in ks:
            a = list(d.args)
            a[2 * ks.index(k) + 1] = v
            return mk("dict", *a)
        if all(distinct(k, x) for x in ks):
            return mk("dict", *(d.args + (k, v)))
    if d.op == "dset" and d.args[1] is k:
        return mk("dset", d.args[0], k, v)
    return mk("dset", d, k, v)


def dget(d, k, default=None):
    if k.op == "ite":
        return ite(k.args[0], dget(d, k.args[1], default), dget(d, k.args[2], default))
    if d.op == "ite":
        return ite(d.args[0], dget(d.args[1], k, default), dget(d.args[2], k, default))
    if d.op == "dict":
        ks = d.args[::2]
        if k in ks:
            return d.args[2 * ks.index(k) + 1]
        if all(distinct(k, x) for x in ks):
            return default if default is not None else mk("keyerror", k)
        if default is None:
            # unknown key in a literal dictionary: select by equality
            r = mk("keyerror", k)
        else:
            r = default
        for i in range(0, len(d.args), 2):
            if not distinct(k, d.args[i]):
                r = ite(eq(k, d.args[i]), d.args[i + 1], r)
        return r
    if d.op == "ddel":
        if d.args[1] is k:
            return default if default is not None else mk("keyerror", k)
        if distinct(d.args[1], k):
            return dget(d.args[0], k, default)
    if d.op == "dset":
        d0, k0, v0 = d.args
        if k0 is k:
            return v0
        if distinct(k0, k):
            return dget(d0, k, default)
        return ite(eq(k0, k), v0, dget(d0, k, default))
    if d.op == "dflat":
        h, dom, kb, vb, init = d.args
        # match key pattern
        m = match(kb, bv(h, 0), k)
        if m is not None:
            return subst(vb, {bv(h, 0): m}) if True else None
        if default is None:
            return mk("at", d, k)
    if default is not None:
        return ite(in_(k, d), mk("at", d, k), default)
    return mk("at", d, k)


def in_(k, d):
    if d.op == "ite":
        return ite(d.args[0], in_(k, d.args[1]), in_(k, d.args[2]))
    if k.op == "ite":
        return ite(k.args[0], in_(k.args[1], d), in_(k.args[2], d))
    if d.op == "dict":
        return or_(*[eq(k, x) for x in d.args[::2]])
    if d.op in ("list", "tuple"):
        return or_(*[eq(k, x) for x in d.args])
    if d.op == "array" and d.args[0].op == "list" and all(x.op in ("str", "num") for x in d.args[0].args):
        return in_(k, d.args[0])
    if d.op == "dset":
        return or_(eq(k, d.args[1]), in_(k, d.args[0]))
    if d.op == "cat":
        return or_(*[in_(k, x) for x in d.args])
    if d.op == "keys":
        return in_(k, d.args[0])
    if d.op == "sorted":
        return in_(k, d.args[0])
    if d.op == "setof":
        return in_(k, d.args[0])
    if d.op == "str" and k.op == "str":
        return TRUE if k.args[0] in d.args[0] else FALSE
    if d.op == "scat" and k.op == "str":
        if any(p.op == "str" and k.args[0] in p.args[0] for p in d.args):
            return TRUE
    if d.op == "dflat":
        h, dom, kb, vb, init = d.args
        m = match(kb, bv(h, 0), k)
        if m is not None and m.op in ("fv", "bv"):
            return TRUE
    return mk("in", k, d)


def keys(d):
    if d.op == "dict":
        return lst(*d.args[::2])
    if d.op == "dflat":
        h, dom, kb, vb, init = d.args
        f = bind("flat", dom, bv(h, 0), lst(kb))
        return cat(keys(init), f) if init.op != "dict" or init.args else f
    if d.op == "ite":
        return ite(d.args[0], keys(d.args[1]), keys(d.args[2]))
    return mk("keys", d)


def values(d):
    if d.op == "dict":
        return lst(*d.args[1::2])
    if d.op == "ite":
        return ite(d.args[0], values(d.args[1]), values(d.args[2]))
    if d.op == "dflat":
        h, dom, kb, vb, init = d.args
        f = bind("flat", dom, bv(h, 0), lst(vb))
        return cat(values(init), f) if init.op != "dict" or init.args else f
    return mk("values", d)


def items(d):
    if d.op == "dict":
        return lst(*[tup(d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)])
    if d.op == "ite":
        return ite(d.args[0], items(d.args[1]), items(d.args[2]))
    if d.op == "dflat":
        h, dom, kb, vb, init = d.args
        f = bind("flat", dom, bv(h, 0), lst(tup(kb, vb)))
        return cat(items(init), f) if init.op != "dict" or init.args else f
    return mk("items", d)


# the other of two possible runs of the same program: sets iterate the other way round, identities, hashes and clock readings differ
OTHER = False


def anyorder(els):
    """elements of a set, or (guard, element) pairs, in an order that is not specified unless all are numbers"""
    if not OTHER or all(samehash(e[1] if isinstance(e, tuple) else e) for e in els):
        return els
    return els[::-1]


def samehash(e):
    return e.op in ("num", "true", "false", "I", "len", "pi", "E") or e.op == "tuple" and all(samehash(z) for z in e.args)


def salted(x):
    """a value that need not be the same in another process"""
    return mk("other", x) if OTHER else x


def setof(L):
    if L.op in ("list", "tuple"):
        u = []
        for x in L.args:
            if x not in u:
                u.append(x)
        return mk("setof", lst(*sorted(u)))
    if L.op == "setof":
        return L
    if L.op == "ite":
        return ite(L.args[0], setof(L.args[1]), setof(L.args[2]))
    if L.op in ("keys",):
        return mk("setof", L.args[0])
    return mk("setof", L)


def match(pat, var, t):
    """find x with pat[var:=x] is t, or None"""
    if pat is var:
        return t
    if pat is t:
        return None
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    found = None
    for p, q in zip(pat.args, t.args):
        if isinstance(p, T) and isinstance(q, T):
            if p is q:
                continue
            m = match(p, var, q)
            if m is None or (found is not None and m is not found):
                return None
            found = m
        elif p != q:
            return None
    if found is not None and subst(pat, {var: found}) is t:
        return found
    return None


# ---------------------------------------------------------------- binders
# shapes (height first):
#   flat(h, dom, body)                     list concatenation over i in dom
#   sumdom(h, dom, body)                   sum over i in dom
#   dflat(h, dom, key, val, init)          dict updates in order
#   sflat(h, dom, stores, init)            array stores in order: stores = list of ('st', idx, val) / ('ad', idx, val)
#   setflat ...
#   lam(h, nparams, body)                  bound vars bv(h,0..n-1)
#   fold(h, dom, inits, news, k)           bound bv(h,0)=index, bv(h,1..)=states; inits/news tuples; k which state
#   wfold(h, inits, cond, news, k)
#   first(h, dom, cond, val, default)
# dom = mk('dom', bound...) sorted unique length terms; index runs 0..min(bounds)-1

def dom(*bounds):
    bs = sorted(set(bounds))
    return mk("dom", *bs)


def bind(op, *args):
    """args contain terms with a *variable* first listed via tuple (vars) ; see wrappers"""
    if op in ("flat", "sumdom"):
        d, var, body = args
        if op == "sumdom" and body is ZERO:
            return ZERO
        if op == "flat" and body.op == "list" and not body.args:
            return lst()
        if all(isint(x) for x in d.args) and d.args:
            n = int(min(numval(x) for x in d.args))
            if n <= 24:
                parts = [subst(body, {var: num(i)}) for i in range(n)]
                return cat(*parts) if op == "flat" else add(*parts)
        if op == "flat" and body.op == "list" and len(body.args) == 1:
            b0 = body.args[0]
            if b0.op == "at" and b0.args[1] is var and var not in fvs(b0.args[0]) and d.args == (len_(b0.args[0]),):
                return mk("mapseq", b0.args[0]) if kind(b0.args[0]) != "list" else b0.args[0]
        if op == "sumdom":
            c, p = coef_split(body)
            if c != 1 and p.op != "num":
                return mul(num(c), bind(op, d, var, p))
            if var not in fvs(body) and len(d.args) == 1:
                return mul(d.args[0], body)
        h = 1 + body.bh
        return mk(op, h, d, subst(body, {var: bv(h)}))
    if op == "dflat":
        d, var, kb, vb, init = args
        if all(isint(x) for x in d.args) and d.args:
            n = int(min(numval(x) for x in d.args))
            if n <= 24:
                r = init
                for i in range(n):
                    r = dset(r, subst(kb, {var: num(i)}), subst(vb, {var: num(i)}))
                return r
        h = 1 + max(kb.bh, vb.bh)
        return mk(op, h, d, subst(kb, {var: bv(h)}), subst(vb, {var: bv(h)}), init)
    if op == "sflat":
        d, var, sts, init = args
        h = 1 + sts.bh
        return mk(op, h, d, subst(sts, {var: bv(h)}), init)
    if op == "lam":
        vars_, body = args
        h = 1 + body.bh
        return mk(op, h, len(vars_), subst(body, {v: bv(h, i) for i, v in enumerate(vars_)}))
    if op == "first":
        d, var, c, v, default = args
        h = 1 + max(c.bh, v.bh)
        m = {var: bv(h)}
        return mk(op, h, d, subst(c, m), subst(v, m), default)
    if op == "fold":
        d, var, svars, inits, stop, news, k = args
        h = 1 + max([n.bh for n in news] + [stop.bh])
        m = {var: bv(h, 0)}
        for i, sv in enumerate(svars):
            m[sv] = bv(h, 1 + i)
        return mk(op, h, d, tup(*inits), subst(stop, m), tup(*[subst(n, m) for n in news]), k)
    if op == "wfold":
        svars, inits, c, news, k = args
        h = 1 + max([n.bh for n in news] + [c.bh])
        m = {sv: bv(h, 1 + i) for i, sv in enumerate(svars)}
        return mk(op, h, tup(*inits), subst(c, m), tup(*[subst(n, m) for n in news]), k)
    raise AssertionError(op)


def open_(t, vals):
    """body of a flat/sumdom/lam with bound variables replaced"""
    if t.op in ("flat", "sumdom"):
        h, d, body = t.args
        return subst(body, {bv(h): vals[0]})
    if t.op == "lam":
        h, n, body = t.args
        return subst(body, {bv(h, i): v for i, v in enumerate(vals)})
    raise AssertionError


def fvs(t):
    """free variables (fv, and bv not bound inside) and symbols"""
    if t._fv is None:
        r = set()
        if t.op in ("fv", "bv"):
            r.add(t)
        for a in t.args:
            if isinstance(a, T):
                r |= fvs(a)
        if t.op in BINDERS:
            h = t.args[0]
            r = {x for x in r if not (x.op == "bv" and x.args[0] == h)}
        t._fv = frozenset(r)
    return t._fv


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op == "mono":
        r = num(args[0])
        for i in range(1, len(args), 2):
            r = mul(r, pow_(args[i], args[i + 1]))
        return r
    if op == "poly":
        return add(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    new = []
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, m, memo)
            if b is not a:
                ch = True
            new.append(b)
        else:
            new.append(a)
    if not ch:
        r = t
    elif t.op in BINDERS:
        r = _rebind(t, new)
    else:
        r = rebuild(t.op, new)
    memo[t] = r
    return r


def _rebind(t, new):
    h = t.args[0]
    op = t.op
    if op in ("flat", "sumdom"):
        v = fresh()
        return bind(op, new[1], v, subst(new[2], {bv(h): v}))
    if op == "dflat":
        v = fresh()
        return bind(op, new[1], v, subst(new[2], {bv(h): v}), subst(new[3], {bv(h): v}), new[4])
    if op == "sflat":
        v = fresh()
        return bind(op, new[1], v, subst(new[2], {bv(h): v}), new[3])
    if op == "lam":
        vs = [fresh() for _ in range(new[1])]
        return bind(op, vs, subst(new[2], {bv(h, i): v for i, v in enumerate(vs)}))
    if op == "first":
        v = fresh()
        return bind(op, new[1], v, subst(new[2], {bv(h): v}), subst(new[3], {bv(h): v}), new[4])
    if op == "fold":
        v = fresh()
        ns = len(new[2].args)
        svs = [fresh() for _ in range(ns)]
        m = {bv(h, 0): v}
        m.update({bv(h, 1 + i): x for i, x in enumerate(svs)})
        return bind(op, new[1], v, svs, list(new[2].args), subst(new[3], m), [subst(x, m) for x in new[4].args], new[5])
    if op == "wfold":
        ns = len(new[1].args)
        svs = [fresh() for _ in range(ns)]
        m = {bv(h, 1 + i): x for i, x in enumerate(svs)}
        return bind(op, svs, list(new[1].args), subst(new[2], m), [subst(x, m) for x in new[3].args], new[4])
    raise AssertionError(op)


def dot(*xs):
    """n-ary associative product (rebuild only; the laws live in ext.dot)"""
    c = Fraction(1)
    out = []
    for x in xs:
        k, x = coef_split(x)
        c *= k
        out.extend(x.args if x.op == "dot" else [x])
    r = mk("dot", *out)
    return mul(num(c), r) if c != 1 else r


def tr(x):
    if x.op == "T":
        return x.args[0]
    if x.op == "mono" and x.args[0] != 1:
        c, p = coef_split(x)
        return mul(num(c), tr(p))
    if x.op == "ite":
        return ite(x.args[0], tr(x.args[1]), tr(x.args[2]))
    return mk("T", x)


def is_(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], is_(x.args[1], y), is_(x.args[2], y))
    if NONE in (a, b) or TRUE in (a, b) or FALSE in (a, b):
        if a.op in ("true", "false", "none") and b.op in ("true", "false", "none"):
            return FALSE
        if distinct(a, b):
            return FALSE
        # x is True / x is None
        o, c = (b, a) if a in (NONE, TRUE, FALSE) else (a, b)
        if c is not NONE and (o.op in ("num", "mono", "poly", "str", "scat", "list", "dict", "tuple", "pv", "ref", "new", "random", "array", "zeros", "ones")):
            return FALSE
        return mk("is", o, c)
    if distinct(a, b):
        return FALSE
    if a.dig > b.dig:
        a, b = b, a
    return mk("is", a, b)


for _n, _f in dict(ite=ite, pos=pos, nneg=nneg, at=at, store=store, scat=scat, cat=cat, len=len_, dset=dset, keys=keys,
                   values=values, items=items, join=join, eq=eq, truth=truth, log=log, abs=abs_, dot=dot, T=tr, setof=setof,
                   slice=slc).items():
    REBUILD[_n] = _f
REBUILD["not"] = not_
REBUILD["and"] = and_
REBUILD["or"] = or_
REBUILD["in"] = in_
REBUILD["is"] = is_
REBUILD["eq0"] = lambda d: eq(d, ZERO)
REBUILD["dict"] = lambda *a: dct(*a)
REBUILD["dom"] = lambda *a: dom(*a)
for _n in ("cos", "sin", "tan", "arctan", "arcsin"):
    REBUILD[_n] = (lambda n: lambda x: trig(n, x))(_n)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "num":
        v = a[0]
        if v.denominator != 1 and v.denominator > 10000:
            return repr(float(v))
        return str(v)
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "none":
        return "None"
    if o == "true":
        return "True"
    if o == "false":
        return "False"
    if o == "mono":
        parts = []
        if a[0] != 1:
            parts.append(show(num(a[0])))
        for i in range(1, len(a), 2):
            b = show(a[i], d)
            if a[i].op in ("poly", "mono"):
                b = "(" + b + ")"
            parts.append(b if a[i + 1] is ONE else b + "^" + ("(" + show(a[i + 1], d) + ")" if a[i + 1].op in ("poly", "mono") else show(a[i + 1], d)))
        return "*".join(parts)
    if o == "poly":
        return " + ".join(show(x, d) for x in a)
    if o == "at":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o in ("list", "tuple"):
        b = ", ".join(show(x, d) for x in a)
        return ("[" + b + "]") if o == "list" else ("(" + b + ")")
    if o == "dict":
        return "{" + ", ".join(f"{show(a[i], d)}: {show(a[i+1], d)}" for i in range(0, len(a), 2)) + "}"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "pos":
        return f"({show(a[0], d)} > 0)"
    if o == "nneg":
        return f"({show(a[0], d)} >= 0)"
    if o == "eq0":
        return f"({show(a[0], d)} == 0)"
    if o in ("eq", "is", "in"):
        return f"({show(a[0], d)} {'==' if o == 'eq' else o} {show(a[1], d)})"
    if o == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if o == "kw":
        return f"{a[0]}={show(a[1], d)}"
    if o == "meth":
        return f"{show(a[1], d)}.{a[0]}({', '.join(show(x, d) for x in a[2:])})"
    if o in ("bv", "fv"):
        return o + "".join("_" + str(x) for x in a)
    return f"{o}({', '.join(show(x, d) for x in a)})"
