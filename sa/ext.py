"""Models of builtins and of the external libraries: mostly uninterpreted functions with a fixed list of laws."""
from fractions import Fraction
import itertools
import re

from . import terms as t
from . import lit
from . import fold
from .lit import Lit
from .terms import T, mk, Undecided, NONE, TRUE, FALSE, ZERO, ONE, ELL

ALIAS = {
    "np.absolute": "np.abs", "np.fabs": "np.abs", "np.asanyarray": "np.asarray", "np.ascontiguousarray": "np.asarray",
    "np.in1d": "np.isin", "np.matmul": "np.dot", "np.divide": "np.true_divide", "np.bitwise_and": "np.logical_and",
    "np.bitwise_or": "np.logical_or", "np.invert": "np.logical_not", "np.amax": "np.max", "np.amin": "np.min",
    "np.round_": "np.round", "np.around": "np.round", "np.arcsin": "np.arcsin", "np.asin": "np.arcsin", "np.acos": "np.arccos",
    "np.atan2": "np.arctan2", "np.atan": "np.arctan", "np.identity": "np.eye", "np.row_stack": "np.vstack",
    "np.concat": "np.concatenate", "np.pow": "np.power", "np.radians": "np.deg2rad", "np.degrees": "np.rad2deg",
    "scipy.linalg.inv": "np.linalg.inv", "scipy.linalg.solve": "np.linalg.solve", "scipy.linalg.det": "np.linalg.det",
    "scipy.linalg.svd": "np.linalg.svd", "scipy.linalg.norm": "np.linalg.norm",
    "scipy.integrate.odeint": "scipy.integrate.odeint",
    "np.product": "np.prod", "np.alltrue": "np.all", "np.sometrue": "np.any", "np.conj": "np.conjugate", "np.rank": "np.ndim",
    "math.sqrt": "np.sqrt", "math.exp": "np.exp", "math.log": "np.log", "math.log10": "np.log10", "math.sin": "np.sin",
    "math.cos": "np.cos", "math.tan": "np.tan", "math.pow": "np.power", "math.atan2": "np.arctan2", "math.acos": "np.arccos",
    "math.asin": "np.arcsin", "math.fabs": "np.abs", "math.floor": "np.floor", "math.ceil": "np.ceil", "math.pi": "np.pi",
    "collections.OrderedDict": "builtins.dict", "np.inner": "np.inner", "math.radians": "np.deg2rad", "operator.add": "np.add",
    "math.hypot": "np.hypot", "math.fsum": "builtins.sum", "np.r_": "np.r_", "np.mod": "np.mod", "math.factorial": "scipy.special.factorial",
    "np.math.factorial": "scipy.special.factorial", "scipy.math.factorial": "scipy.special.factorial",
    "math.gamma": "scipy.special.gamma", "scipy.special.jn": "scipy.special.jv",
}
SIG = {
    "np.zeros": ["shape", "dtype"], "np.ones": ["shape", "dtype"], "np.empty": ["shape", "dtype"], "np.eye": ["N", "M"],
    "np.full": ["shape", "fill_value", "dtype"], "np.zeros_like": ["a", "dtype"], "np.ones_like": ["a", "dtype"],
    "np.full_like": ["a", "fill_value", "dtype"], "np.array": ["object", "dtype"], "np.linspace": ["start", "stop", "num", "endpoint"],
    "np.logspace": ["start", "stop", "num", "endpoint"], "np.arange": ["start", "stop", "step"], "np.sum": ["a", "axis"],
    "np.repeat": ["a", "repeats", "axis"], "np.tile": ["A", "reps"], "np.concatenate": ["arrays", "axis"], "np.diag": ["v", "k"],
    "np.where": ["condition", "x", "y"], "np.interp": ["x", "xp", "fp"], "np.argsort": ["a", "axis", "kind"], "np.diff": ["a", "n"],
    "np.unique": ["ar"], "np.isin": ["element", "test_elements"], "np.mean": ["a", "axis"], "np.max": ["a", "axis"], "np.min": ["a", "axis"],
    "np.std": ["a", "axis"], "np.any": ["a", "axis"], "np.all": ["a", "axis"], "np.prod": ["a", "axis"], "np.dot": ["a", "b"],
    "np.random.uniform": ["low", "high", "size"], "np.random.normal": ["loc", "scale", "size"], "np.random.randn": None,
    "np.random.multivariate_normal": ["mean", "cov"], "np.random.seed": ["seed"], "np.random.rand": None,
    "np.cumsum": ["a", "axis"], "np.argmin": ["a", "axis"], "np.argmax": ["a", "axis"], "np.median": ["a", "axis"],
    "np.reshape": ["a", "newshape"], "np.transpose": ["a", "axes"], "np.outer": ["a", "b"], "np.einsum": None, "np.tensordot": ["a", "b", "axes"],
    "scipy.stats.uniform.ppf": ["q", "loc", "scale"], "scipy.stats.norm.ppf": ["q", "loc", "scale"],
    "scipy.stats.norm.pdf": ["x", "loc", "scale"], "np.linalg.svd": ["a", "full_matrices"], "scipy.linalg.qr": ["a", "overwrite_a", "lwork", "mode", "pivoting"],
    "scipy.linalg.cho_factor": ["a", "lower", "overwrite_a", "check_finite"], "scipy.linalg.cho_solve": ["c_and_lower", "b", "overwrite_b", "check_finite"],
    "np.linalg.norm": ["x", "ord", "axis"], "np.atleast_1d": ["x"], "np.heaviside": ["x1", "x2"], "scipy.stats.invgamma.pdf": ["x", "a", "loc", "scale"],
    "scipy.stats.invgamma.rvs": ["a", "loc", "scale", "size"], "np.split": ["ary", "indices_or_sections", "axis"], "np.squeeze": ["a", "axis"],
    "np.stack": ["arrays", "axis"], "np.roll": ["a", "shift", "axis"], "np.clip": ["a", "a_min", "a_max"], "np.searchsorted": ["a", "v", "side"],
    "np.cross": ["a", "b"], "np.flatnonzero": ["a"], "np.power": ["x1", "x2"], "np.add": ["x1", "x2"], "np.subtract": ["x1", "x2"],
    "np.multiply": ["x1", "x2"], "np.true_divide": ["x1", "x2"], "np.fill_diagonal": ["a", "val"], "np.digitize": ["x", "bins"],
    "np.random.choice": ["a", "size"], "np.random.standard_normal": ["size"],
    "np.vstack": ["tup"], "np.hstack": ["tup"], "np.column_stack": ["tup"], "np.exp": ["x"], "np.sqrt": ["x"], "np.isclose": ["a", "b"],
    "np.allclose": ["a", "b"],
}
DEFAULTS = {"np.linspace": {"num": t.num(50), "endpoint": TRUE}, "np.logspace": {"num": t.num(50), "endpoint": TRUE},
            "np.sum": {"axis": NONE}, "np.mean": {"axis": NONE}, "np.concatenate": {"axis": ZERO}, "np.diag": {"k": ZERO},
            "np.random.uniform": {"low": ZERO, "high": ONE, "size": NONE}, "np.random.normal": {"loc": ZERO, "scale": ONE, "size": NONE},
            "np.diff": {"n": ONE}, "np.eye": {"M": NONE}, "np.max": {"axis": NONE}, "np.min": {"axis": NONE}, "np.prod": {"axis": NONE},
            "np.any": {"axis": NONE}, "np.all": {"axis": NONE}, "scipy.linalg.cho_factor": {"lower": FALSE, "overwrite_a": FALSE, "check_finite": TRUE},
            "scipy.linalg.cho_solve": {"overwrite_b": FALSE, "check_finite": TRUE}, "np.argsort": {"axis": t.num(-1)}, "np.cumsum": {"axis": NONE},
            "scipy.stats.uniform.ppf": {"loc": ZERO, "scale": ONE}, "scipy.stats.norm.ppf": {"loc": ZERO, "scale": ONE},
            "np.repeat": {"axis": NONE}, "np.std": {"axis": NONE}, "np.linalg.norm": {"ord": NONE, "axis": NONE}, "np.stack": {"axis": ZERO}}
METHODS_AS_FUNCS = {"sum": "np.sum", "mean": "np.mean", "max": "np.max", "min": "np.min", "dot": "np.dot", "std": "np.std", "prod": "np.prod",
                    "argsort": "np.argsort", "repeat": "np.repeat", "cumsum": "np.cumsum", "any": "np.any", "all": "np.all", "argmin": "np.argmin",
                    "argmax": "np.argmax", "diagonal": "np.diag", "squeeze": "np.squeeze", "conj": "np.conjugate", "conjugate": "np.conjugate",
                    "ravel": "np.ravel", "flatten": "np.ravel", "transpose": "np.transpose", "round": "np.round", "nonzero": "np.nonzero",
                    "clip": "np.clip", "var": "np.var", "swapaxes": "np.swapaxes", "searchsorted": "np.searchsorted", "take": "np.take", "cumprod": "np.cumprod", "ptp": "np.ptp", "trace": "np.trace"}
DRAWS = ("np.random.", "scipy.stats.")
# readings that differ from one process to the next
UNSTABLE = {"os.getpid", "os.urandom", "os.getppid", "os.times", "datetime.datetime.now", "datetime.datetime.utcnow",
            "datetime.datetime.today", "datetime.date.today", "threading.get_ident", "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.mktemp",
            "os.listdir", "glob.glob"}
UNSTABLE_MODULES = ("time.", "uuid.", "secrets.")
SEEDED = {"np.random.default_rng", "np.random.RandomState", "np.random.SeedSequence", "random.Random"}
EFFECTS = ("os.chdir", "os.makedirs", "os.mkdir", "os.remove", "os.unlink", "shutil.", "pickle.dump", "json.dump", "np.save", "np.savez",
           "np.savetxt", "pyarrow.feather.write_feather", "builtins.open", "os.rename", "os.rmdir", "multiprocessing.resource_tracker.unregister",
           "np.random.seed")
EFFECT_METHODS = {"write", "writelines", "close", "unlink", "save", "destroy", "write_TOA_file", "cholesky_inplace"}
MUTATORS = {"insert", "remove", "reverse", "clear", "popitem", "discard", "add", "resize", "partition", "itemset", "byteswap"}
INPLACE = {"np.fill_diagonal", "np.add.at", "np.subtract.at", "np.multiply.at", "np.copyto", "np.put", "np.place", "np.putmask", "np.random.shuffle", "np.nan_to_num",
           "np.put_along_axis"}
UFUNC = dict.fromkeys(("np." + k for k in "add subtract multiply divide true_divide power arctan2 maximum minimum fmod mod hypot floor_divide dot matmul".split()), 2)
UFUNC.update(dict.fromkeys(("np." + k for k in "sqrt exp log log10 log2 sin cos tan arcsin arccos arctan abs absolute negative square sign floor ceil rint isnan reciprocal conjugate".split()), 1))
ELLIPSIS_INDEX = mk("ellipsis")
FLOATS = {"d", "float", "float64", "f8", "double"}
IDENT_METHODS = {"view", "copy", "toarray", "todense", "tocsc", "tocsr", "item"}


KINDATTR = {"arr": [], "str": "", "dict": {}, "float": 1.0, "int": 1, "list": []}
ARRATTR = {"shape", "ndim", "dtype", "size", "T", "sum", "mean", "max", "min", "dot", "reshape", "flatten", "ravel", "astype", "view",
           "transpose", "argsort", "__array__", "__array_finalize__", "std", "any", "all", "tolist", "squeeze", "nonzero", "take"}

NDNAMES = set("""
T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__ __array_namespace__
__array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__
__complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dir__ __divmod__ __dlpack__ __dlpack_device__
__doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__
__iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__
__invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__
__matmul__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__
__reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__
__rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__
__truediv__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate
copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset
itemsize mT max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round
searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist
tostring trace transpose var view
""".split())


STRMETH = ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "split", "rsplit", "splitlines", "partition", "rpartition",
           "replace", "find", "rfind", "index", "rindex", "count", "startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isupper",
           "islower", "isnumeric", "isdecimal", "isidentifier", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "casefold", "expandtabs")


def strmeth(x, name, args):
    """String methods of literals with literal arguments."""
    py = []
    for a in args:
        if a.op == "str":
            py.append(a.args[0])
        elif a is NONE:
            py.append(None)
        elif a.op == "num" and t.isint(a):
            py.append(int(t.numval(a)))
        elif a.op in ("tuple", "list") and all(b.op == "str" for b in a.args):
            py.append(tuple(b.args[0] for b in a.args))
        else:
            return None
    try:
        r = getattr(x, name)(*py)
    except Exception:
        return None
    if isinstance(r, bool):
        return TRUE if r else FALSE
    if isinstance(r, int):
        return t.num(r)
    if isinstance(r, str):
        return t.s(r)
    if isinstance(r, tuple):
        return t.tup(*[t.s(y) for y in r])
    if isinstance(r, list):
        return t.lst(*[t.s(y) for y in r])
    return None


ELEM1 = {"exp", "log", "cos", "sin", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "tanh", "abs"}


class Ext:
    NDNAMES = NDNAMES

    def fresh(self, v):
        """a copy: the same content in storage of its own"""
        return self.ip.alloc("val", v) if v.op in ("sym", "attr", "at") else v

    def __init__(self, ip):
        self.ip = ip
        self.lits = lit.Lits(self)

    # ---------------------------------------------------------------- constants
    def constant(self, name):
        name = ALIAS.get(name, name)
        from .interp import CONSTS
        if name in CONSTS:
            return t.num(CONSTS[name])
        if name in ("np.pi", "scipy.constants.pi"):
            return t.PI
        if name in ("np.e",):
            return t.EULER
        if name in ("np.inf", "np.Inf", "np.infty", "math.inf", "np.PINF"):
            return mk("sym", "inf")
        if name in ("np.nan", "np.NaN", "math.nan"):
            return mk("sym", "nan")
        if name == "np.newaxis":
            return NONE
        if name == "np.linalg.LinAlgError" or name == "scipy.linalg.LinAlgError":
            return mk("ext", "LinAlgError")
        return mk("ext", name)

    def opaque(self, head, args, kw):
        parts = list(args) + [mk("kw", k, v) for k, v in sorted(kw.items())]
        parts = [self.ip.fz(p) if self.ip.hasref(p) else p for p in parts]
        if not (head == "np.linalg.svd" and self.definite(parts[0]) is not None):
            self.ip.note("op", t.s(head if head != "apply" else "apply"))
        if head == "apply":
            return mk("apply", *parts)
        return mk("call", head, *parts)

    def zerolit(self, x, y):
        """an array of zeros, of no more dimensions than y (broadcasting zeros changes no value)"""
        if x.op != "array":
            return False
        v = self.lits.of(x)
        if v is None or not v.flat or any(e is not ZERO for e in v.flat):
            return False
        n = self.ndim(y)
        return t.isint(n) and int(t.numval(n)) >= v.nd

    def dropones(self, x):
        """an array of ones multiplying an array of the same dimension changes nothing"""
        if x.op == "poly":
            ms = [self.dropones(m) for m in x.args]
            return x if all(a is b for a, b in zip(ms, x.args)) else t.add(*ms)
        if x.op == "ite":
            return t.ite(x.args[0], self.dropones(x.args[1]), self.dropones(x.args[2]))
        if x.op == "ones" or x.op != "mono" or not any(a.op == "ones" for a in x.args[1::2]):
            return x
        fs = [(x.args[i], x.args[i + 1]) for i in range(1, len(x.args), 2)]
        nd = [self.ndim(f) for f, e in fs]
        best = max([int(t.numval(n)) for n, (f, e) in zip(nd, fs) if t.isint(n) and f.op != "ones"], default=0)
        r = t.num(x.args[0])
        kept = False
        for n, (f, e) in zip(nd, fs):
            if f.op == "ones":
                if t.isint(n) and (t.numval(n) <= best):
                    continue
                e = ONE
                if kept is f:
                    continue
                kept = f
            r = t.mul(r, t.pow_(f, e))
        return r

    # ---------------------------------------------------------------- linear algebra
    def dot(self, a, b):
        ip = self.ip
        a, b = ip.fz(a), ip.fz(b)
        for x, y, f in ((a, b, lambda p: self.dot(p, b)), (b, a, lambda p: self.dot(a, p))):
            if x.op == "ite":
                return t.ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if a.op == "eye":
            return b
        if b.op == "eye":
            return a
        ca, a = t.coef_split(a)
        cb, b = t.coef_split(b)
        fa = list(a.args) if a.op == "dot" else [a]
        fb = list(b.args) if b.op == "dot" else [b]
        fs = fa + fb
        # products with an inverse are solves
        out = []
        i = len(fs) - 1
        acc = fs[-1]
        rest = fs[:-1]
        while rest:
            x = rest.pop()
            if x.op == "INV":
                acc2 = self.solve(x.args[0], acc)
                acc = acc2
            else:
                acc = self._dot2(x, acc)
        c = ca * cb
        return t.mul(t.num(c), acc) if c != 1 else acc

    def svdsolve(self, u, y):
        """u (u' b / s) for the singular vectors and values of a constant positive
        definite matrix: its inverse times b"""
        if not (u.op == "at" and u.args[1] is ZERO and u.args[0].op == "call" and u.args[0].args[0] == "np.linalg.svd" and len(u.args[0].args) == 2):
            return None
        s = t.at(u.args[0], ONE)
        ms = t._monos(y)
        if len(ms) != 1:
            return None
        (key, c), = ms.items()
        fs = dict(key)
        if fs.pop(s, None) is not t.num(-1) or len(fs) != 1:
            return None
        (d, e), = fs.items()
        if e is not ONE or d.op != "dot" or len(d.args) != 2 or not (d.args[0].op == "T" and d.args[0].args[0] is u) or self.ndim(d.args[1]) is not ONE:
            return None
        if self.definite(u.args[0].args[1]) is not True:
            return None
        r = self.solve(u.args[0].args[1], d.args[1])
        return t.mul(t.num(c), r) if c != 1 else r

    def _dot2(self, x, y):
        r = self.svdsolve(x, y)
        if r is not None:
            return r
        fx = list(x.args) if x.op == "dot" else [x]
        fy = list(y.args) if y.op == "dot" else [y]
        if len(fx) == 1 and len(fy) == 1 and self.ndim(x) is ONE and self.ndim(y) is ONE:
            r = self.lits.zip(x, y, t.mul) if x.op == y.op == "array" else None
            return self.npsum(r if r is not None else t.mul(x, y))
        if len(fx) == 1 and len(fy) == 1 and "array" in (x.op, y.op) and {x.op, y.op} <= {"array", "random", "diag", "ones", "zeros"}:
            a, b = self.lits.of(x), self.lits.of(y)
            if a is not None and b is not None and a.nd <= 2 and b.nd <= 2 and a.dims[-1] == b.dims[0] and a.dims[-1]:
                from .lit import Lit
                n = b.dims[0]
                ra = [()] if a.nd == 1 else [(i,) for i in range(a.dims[0])]
                cb = [()] if b.nd == 1 else [(j,) for j in range(b.dims[1])]
                if len(ra) * len(cb) * n <= 256:
                    fl = [t.add(ZERO, *[t.mul(a.get(i + (k,)), b.get((k,) + j)) for k in range(n)]) for i in ra for j in cb]
                    return Lit(a.dims[:-1] + b.dims[1:], fl).term()
        for u, v in ((x, y), (y, x)):
            if u.op in ("num", "at", "sym", "mono", "poly") and self.ndim(u) is ZERO and len(fx) == len(fy) == 1:
                return self.ip.arith("Mult", v, u)
        return mk("dot", *(fx + fy))

    def inv(self, A):
        if A.op == "ite":
            return t.ite(A.args[0], self.inv(A.args[1]), self.inv(A.args[2]))
        if A.op == "INV":
            return A.args[0]
        if A.op == "eye":
            return A
        r = self.numinv(A)
        return r[0] if r is not None else mk("INV", A)

    def numinv(self, A):
        """(inverse, determinant) of a constant matrix or of a literal diagonal one"""
        v = self.lits.of(A) if A.op in ("array", "diag") else None
        if v is None or v.nd != 2 or v.dims[0] != v.dims[1] or not 0 < v.dims[0] <= 16:
            return None
        from .lit import Lit
        n = v.dims[0]
        if all(v.get((i, j)) is ZERO for i in range(n) for j in range(n) if i != j):
            d = [v.get((i, i)) for i in range(n)]
            if ZERO in d:
                return None
            return (Lit((n, n), [t.pow_(d[i], t.num(-1)) if i == j else ZERO for i in range(n) for j in range(n)]).term(), t.mul(*d) if n > 1 else d[0])
        if not all(x.op == "num" for x in v.flat):
            return None
        M = [[Fraction(t.numval(v.get((i, j)))) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        det = Fraction(1)
        for c in range(n):
            k = next((r for r in range(c, n) if M[r][c] != 0), None)
            if k is None:
                return None
            if k != c:
                M[k], M[c] = M[c], M[k]
                det = -det
            det *= M[c][c]
            q = M[c][c]
            M[c] = [x / q for x in M[c]]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    q = M[r][c]
                    M[r] = [x - q * y for x, y in zip(M[r], M[c])]
        return (Lit((n, n), [t.num(M[i][n + j]) for i in range(n) for j in range(n)]).term(), t.num(det))

    def definite(self, A):
        """whether a constant symmetric matrix is positive definite; None if not known"""
        v = self.lits.of(A) if A.op == "array" else None
        if v is not None and v.nd == 2 and v.dims[0] == v.dims[1] and 0 < v.dims[0] <= 16 and all(x.op == "num" for x in v.flat):
            n = v.dims[0]
            M = [[Fraction(t.numval(v.get((i, j)))) for j in range(n)] for i in range(n)]
            if all(M[i][j] == M[j][i] for i in range(n) for j in range(i)):
                small = max(abs(x) for r in M for x in r) / 10 ** 9
                k = 0
                while k < n and M[k][k] > small:
                    for i in range(k + 1, n):
                        q = M[i][k] / M[k][k]
                        if q:
                            M[i] = [x - q * y for x, y in zip(M[i], M[k])]
                    k += 1
                if k == n:
                    return True
                if M[k][k] < -small:
                    return False
        return None

    def factored(self, A, exc):
        """a Cholesky factorisation of A: certain to succeed or to fail for a
        constant symmetric matrix, and otherwise one that may fail"""
        k = self.definite(A)
        if k is False:
            self.ip.raise_(self.ip.exc(exc))
        if k is None:
            self.ip.note("op", mk("fails", "cholesky", A))

    def solve(self, A, b):
        if b.op == "eye":
            return self.inv(A)
        if b.op == "ite":
            return t.ite(b.args[0], self.solve(A, b.args[1]), self.solve(A, b.args[2]))
        if A.op == "ite":
            return t.ite(A.args[0], self.solve(A.args[1], b), self.solve(A.args[2], b))
        k = self.numinv(A)
        if k is not None:
            return self.dot(k[0], b)
        c, b = t.coef_split(b)
        r = mk("SOLVE", A, b)
        return t.mul(t.num(c), r) if c != 1 else r

    def logdet(self, A):
        if A.op == "ite":
            return t.ite(A.args[0], self.logdet(A.args[1]), self.logdet(A.args[2]))
        k = self.numinv(A)
        if k is not None and (k[1].op != "num" or t.numval(k[1]) > 0):
            return t.log(k[1])
        return mk("LOGDET", A)

    def npsum(self, x):
        if x.op == "ite":
            return t.ite(x.args[0], self.npsum(x.args[1]), self.npsum(x.args[2]))
        c, p = t.coef_split(x)
        if c != 1:
            return t.mul(t.num(c), self.npsum(p))
        if p is NONE or p.op in ("log", "exp", "pow", "pi", "E", "call") and self.ndim(p) is ZERO:
            return p
        if p.op in ("mono", "poly"):
            L = self.lits.elementwise(p)
            if L is not None and L.nd >= 1 and L.flat:
                return self.npsum(t.lst(*L.flat))
        if p.op in ("mono", "poly", "dot", "sym") and (self.scalarish(p) or self.ndim(p) is ZERO):
            return p
        if p.op == "log" and p.args[0].op == "diag":
            d = p.args[0].args[0]
            # sum(log(diag(chol factor))) = logdet / 2
            if d.op == "chofac":
                return t.mul(t.HALF, self.logdet(d.args[0]))
            if d.op == "at" and d.args[0].op == "cho" and d.args[1] is ZERO:
                return t.mul(t.HALF, self.logdet(d.args[0].args[0]))
        if p.op in ("list", "tuple"):
            r = ZERO
            for a in p.args:
                v = self.ip.val(a)
                r = t.add(r, v if v.op in ("log", "mono", "poly", "sym", "attr", "at") and self.lits.scalar(v) else self.npsum(v))
            return r
        if p.op == "array" and p.args[0].op == "list":
            return self.npsum(p.args[0])
        if p.op == "num":
            return p
        if p.op in ("npsum", "LOGDET", "len"):
            return p
        if p.op == "zeros":
            return ZERO
        if p.op == "cat":
            return t.add(*[self.npsum(a) for a in p.args])
        if p.op == "flat":
            h, d, body = p.args
            if body.op == "list":
                v = t.fresh()
                b2 = t.open_(p, (v,))
                return t.bind("sumdom", d, v, t.add(*[self.npsum(a) for a in b2.args]))
            if body.op == "ite":
                v = t.fresh()
                b2 = t.open_(p, (v,))

                def conv(y):
                    if y.op == "list":
                        return t.add(ZERO, *[self.npsum(a) for a in y.args])
                    if y.op == "ite":
                        return t.ite(y.args[0], conv(y.args[1]), conv(y.args[2]))
                    return mk("npsum", y)
                return t.bind("sumdom", d, v, conv(b2))
        if t.is_bool(p):
            return mk("npsum", p)
        return mk("npsum", p)

    # ---------------------------------------------------------------- helpers
    def setop(self, nm, a, b):
        ip = self.ip
        la, lb = self.setlist(a), self.setlist(b)
        if la is not None and lb is not None:
            if nm == "union":
                return self.mkset(t.lst(*(la + lb)))
            out = []
            und = False
            src = la if nm != "symmetric_difference" else None
            if src is not None:
                for x in src:
                    c = t.or_(*[ip.eqv(x, y) for y in lb])
                    if c not in (TRUE, FALSE):
                        und = True
                        break
                    if (c is TRUE) == (nm == "intersection"):
                        out.append(x)
                if not und:
                    return self.mkset(t.lst(*out))
        return mk("setop", nm, a, b)

    def setlist(self, a):
        a = self.ip.val(a)
        if a.op == "setof":
            a = a.args[0]
        if a.op in ("list", "tuple"):
            return list(a.args)
        if a.op == "dict":
            return list(a.args[::2])
        return None

    def mkset(self, v):
        v = self.ip.val(v)
        if v.op in ("list", "tuple"):
            return t.setof(t.lst(*[self.ip.key(x) for x in v.args]))
        if v.op == "setof":
            return v
        if v.op == "dict":
            return t.setof(t.lst(*v.args[::2]))
        if v.op == "ite":
            return t.ite(v.args[0], self.mkset(v.args[1]), self.mkset(v.args[2]))
        if v.op == "cat" or v.op == "flat":
            segs = self.ip.segments(v)
            if segs is not None:
                # conditional members keep their guards
                out = []
                for g, e in segs:
                    out.append((g, self.ip.key(e)))
                if all(g is None for g, _ in out):
                    return t.setof(t.lst(*[e for _, e in out]))
        return t.setof(self.ip.fz(v))

    def percent(self, a, b):
        if a.op != "str":
            return mk("strf", "%", a, b)
        args = list(b.args) if b.op == "tuple" else [b]
        out, i, cur = [], 0, a.args[0]
        import re
        pos = 0
        for m in re.finditer(r"%(\(\w+\))?[-+ #0]*\d*(\.\d+)?[a-zA-Z%]", cur):
            out.append(t.s(cur[pos:m.start()]))
            pos = m.end()
            sp = m.group(0)
            if sp == "%%":
                out.append(t.s("%"))
                continue
            if i >= len(args):
                return mk("strf", "%", a, b)
            x = args[i]
            i += 1
            out.append(self.ip.tostr(x) if sp in ("%s", "%d") else mk("strf", sp, self.ip.fz(x)))
        out.append(t.s(cur[pos:]))
        return t.scat(*out)

    def format(self, fmt, args, kw):
        ip = self.ip
        if fmt.op == "ite":
            return t.ite(fmt.args[0], self.format(fmt.args[1], args, kw), self.format(fmt.args[2], args, kw))
        if fmt.op != "str":
            return mk("strf", "format", ip.fz(fmt), *([ip.fz(a) for a in args] + [mk("kw", k, ip.fz(v)) for k, v in sorted(kw.items())]))
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt.args[0]):
            if lit:
                out.append(t.s(lit))
            if field is None:
                continue
            base = field.split(".")[0].split("[")[0]
            tail = field[len(base):]
            if base == "":
                if auto >= len(args):
                    ip.raise_(ip.exc("IndexError"))
                v = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    ip.raise_(ip.exc("IndexError"))
                v = args[int(base)]
            else:
                if base not in kw:
                    if "**" in kw:
                        v = t.dget(kw["**"], t.s(base))
                    else:
                        ip.raise_(ip.exc("KeyError"))
                else:
                    v = kw[base]
            if tail.startswith("."):
                v = ip.getattr(v, tail[1:])
                tail = ""
            elif tail.startswith("["):
                v = ip.subscript(v, t.s(tail[1:-1]))
            s_ = ip.tostr(v)
            if spec or conv:
                s_ = mk("strf", (spec or "") + "!" + (conv or ""), s_)
            out.append(s_)
        return t.scat(*out) if out else t.s("")

    def plain(self, f):
        """data that is not an object of this package (free names of an observation unless declared otherwise)"""
        if f.op == "sym":
            k = self.ip.known.get(mk("kindof", f))
            return k is None or k.args[0] != "obj"
        if f.op in ("attr", "at", "meth", "T"):
            a = [x for x in f.args if isinstance(x, T)]
            return bool(a) and self.plain(a[0])
        if f.op in ("call",):
            return not f.args[0].startswith("repo:")
        return f.op in ("num", "mono", "poly", "zeros", "ones", "array", "store", "sflat", "dot", "SOLVE", "INV", "diag", "random", "bv", "fv", "exp", "log")

    # ---------------------------------------------------------------- builtins
    def call_builtin(self, name, args, kw):
        if "builtins." + name in self.ip.externs:
            return self.ip.call(self.ip.externs["builtins." + name], args, kw)
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return m(args, kw)
        return self.opaque("builtins." + name, [self.ip.arg(a) for a in args], {k: self.ip.arg(v) for k, v in kw.items()})

    def b_len(self, a, kw):
        ip = self.ip
        x = a[0]
        if x.op == "ite":
            return t.ite(x.args[0], self.b_len([x.args[1]], {}), self.b_len([x.args[2]], {}))
        if ip.isobj(x):
            r = ip.try_dunder(x, "__len__", [])
            if r is not None:
                return r
            c = ip.cell(x)
            if c.val is not None:
                return t.len_(ip.fz(c.val))
        if x.op == "instdict":
            return t.num(len(ip.cell(x.args[0]).attrs))
        v = ip.val(x)
        segs = None
        if t.kind(v) in ("list", "dict") and v.op != "keys":
            segs = ip.segments(v)
        if segs is not None:
            return t.add(ZERO, *[ONE if g is None else t.ite(g, ONE, ZERO) for g, _ in segs])
        f = ip.fz(v)
        k = ip.known.get(mk("lenof", f))
        if k is not None:
            return k
        if f.op in ("T", "mono", "poly"):
            sh = self.shape(f)
            if sh.op == "tuple" and sh.args:
                return sh.args[0]
        if f.op in ("SOLVE", "call", "dot", "random", "at", "npop"):
            sh = self.shape(f)
            if sh.op == "tuple" and sh.args and t.isint(sh.args[0]):
                return sh.args[0]
        if f.op == "setof" and f.args[0].op == "list" and len(f.args[0].args) > 1:
            # distinctness may be undecided
            L = f.args[0].args
            if not all(t.distinct(p, q) for i, p in enumerate(L) for q in L[:i]):
                return mk("len", f)
            return t.num(len(L))
        if f.op == "setof":
            return t.num(len(f.args[0].args)) if f.args[0].op == "list" else mk("len", f)
        return t.len_(f)

    def b_range(self, a, kw):
        ip = self.ip
        a = [ip.fz(x) for x in a]
        if len(a) == 1:
            lo, hi, st = ZERO, a[0], ONE
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], ONE
        else:
            lo, hi, st = a
        if all(t.isint(x) for x in (lo, hi, st)):
            r = range(int(t.numval(lo)), int(t.numval(hi)), int(t.numval(st)))
            if len(r) <= 200:
                return t.lst(*[t.num(i) for i in r])
        n = t.sub(hi, lo)
        if st is ONE and t.isint(n) and 0 <= t.numval(n) <= 64:
            return t.lst(*[t.add(lo, t.num(i)) for i in range(int(t.numval(n)))])
        return mk("range", lo, hi, st)

    def b_zip(self, a, kw):
        ip = self.ip
        for i, x in enumerate(a):
            v = ip.val(x)
            if v.op == "ite" and t.kind(v.args[1]) in ("list", "tuple", "?") and t.kind(v.args[2]) in ("list", "tuple", "?"):
                f = lambda y: self.b_zip(list(a[:i]) + [y] + list(a[i + 1:]), kw)
                return ip.branch(v.args[0], lambda: f(v.args[1]), lambda: f(v.args[2]))
        segs = [ip.segments(x) for x in a]
        if all(s is not None and all(g is None for g, _ in s) for s in segs):
            return t.lst(*[t.tup(*[e for _, e in z]) for z in zip(*segs)])
        if any(x is not None and any(g is not None for g, _ in x) for x in segs) and all(x is not None for x in segs) and sum(
                g is not None for x in segs for g, _ in x) <= 6:
            def expand(k, done):
                if k == len(segs):
                    return t.lst(*[t.tup(*[e for _, e in z]) for z in zip(*done)])

                def take(rest, acc):
                    for j, (g, e) in enumerate(rest):
                        if g is not None:
                            return ip.branch(g, lambda: take(rest[j + 1:], acc + [(None, e)]), lambda: take(rest[j + 1:], acc))
                        acc = acc + [(None, e)]
                    return expand(k + 1, done + [acc])
                return take(segs[k], [])
            return expand(0, [])
        # one side literal: length of the literal side
        lit = [s for s in segs if s is not None and all(g is None for g, _ in s)]
        if lit:
            n = min(len(s) for s in lit)
            if all((s is not None and all(g is None for g, _ in s)) or t.kind(ip.val(x)) == "?" for s, x in zip(segs, a)):
                cols = []
                for s, x in zip(segs, a):
                    if s is not None:
                        cols.append([e for _, e in s[:n]])
                    else:
                        f = ip.fz(x)
                        cols.append([ip.elem(f, t.num(i)) for i in range(n)])
                return t.lst(*[t.tup(*z) for z in zip(*cols)])
        xs = []
        for x in a:
            v = ip.val(x)
            # zip(*flat)
            xs.append(ip.fz(x))
        if len(xs) == 1 and xs[0].op == "star":
            return mk("unzip", xs[0].args[0])
        return mk("zip", *xs)

    def b_enumerate(self, a, kw):
        ip = self.ip
        start = ip.fz(a[1]) if len(a) > 1 else ip.fz(kw.get("start", ZERO))
        segs = ip.segments(a[0])
        if segs is not None:
            out = []
            n = start
            for g, e in segs:
                p = t.lst(t.tup(n, e))
                out.append(p if g is None else t.ite(g, p, t.lst()))
                n = t.add(n, ONE) if g is None else t.add(n, t.ite(g, ONE, ZERO))
            return t.cat(*out)
        return mk("enumerate", ip.fz(a[0]), start)

    def b_isinstance(self, a, kw):
        return self.isinst(a[0], a[1])

    def isinst(self, x, c):
        ip = self.ip
        if c.op == "tuple":
            return t.or_(*[self.isinst(x, k) for k in c.args])
        if x.op == "ite":
            return t.ite(x.args[0], self.isinst(x.args[1], c), self.isinst(x.args[2], c))
        if x.op in ("pymin", "pymax") and all(isinstance(y, T) for y in x.args):
            rs = {self.isinst(y, c) for y in x.args}
            if rs <= {TRUE, FALSE} and len(rs) == 1:
                return rs.pop()
        cn = None
        oc = ip_pv(c)
        if c.op in ("bi", "ext"):
            cn = c.args[0].split(".")[-1]
            if cn in ("Sequence", "MutableSequence", "Iterable", "Mapping"):
                pass
        if ip.isobj(x):
            cls = ip.cell(x).cls
            if c in ip_pv(cls).mro:
                return TRUE
            if c.op == "ext" and ip.externs.get(c.args[0]) in ip_pv(cls).mro:
                return TRUE     # the client program's stand-in for this class
            if cn == "object":
                return TRUE
            if cn == "ndarray" and any(b.op == "ext" and b.args[0] == "np.ndarray" for b in ip_pv(cls).mro):
                return TRUE
            if cn is not None and any(b.op in ("ext", "bi") and b.args[0].split(".")[-1] == cn for b in ip_pv(cls).mro):
                return TRUE
            eb = ip.ext_base(cls)
            if eb is not None and eb.op in ("sym", "attr"):
                return mk("isinst", eb, ip.pvname(c) if c.op == "pv" else c)
            return FALSE
        if x.op == "pv":
            o = ip_pv(x)
            if oc.__class__.__name__ == "Class":
                # metaclass instance?
                if o.__class__.__name__ == "Class":
                    m = ip.metaof(x)
                    return TRUE if m is not None and c in ip_pv(m).mro else FALSE
                return FALSE
            if cn == "type":
                return TRUE if o.__class__.__name__ == "Class" else FALSE
            if cn in ("FunctionType", "Callable", "object"):
                return TRUE
            return FALSE
        v = ip.val(x)
        if v is not x and (v.op == "ite" or ip.isobj(v)):
            return self.isinst(v, c)
        k = t.kind(v)
        if v.op in ("bi", "ext"):
            return TRUE if cn == "type" else FALSE
        if v.op == "slice" and cn is not None:
            return TRUE if cn in ("slice", "object") else FALSE
        fz = ip.fz(v)
        cname = t.s(cn) if cn is not None else (ip.pvname(c) if c.op == "pv" else c)
        r = mk("isinst", fz, cname)
        kn = ip.known.get(r)
        if kn is not None:
            return kn
        kd = ip.known.get(mk("kindof", fz))
        if kd is not None:
            k = {"arr": "arr"}.get(kd.args[0], kd.args[0])
        if v is NONE:
            return FALSE if cn != "NoneType" else TRUE
        if oc is not None and (k != "?" or self.plain(fz)):
            return FALSE
        if cn == "type" and self.plain(fz):
            return FALSE
        if k == "?" and v.op in ("zeros", "ones", "array", "store", "sflat", "eye", "dot", "SOLVE", "INV", "diag", "random", "rec"):
            k = "arr"
        if k == "?" or cn is None:
            if k == "dict" and cn is None:
                return FALSE
            return r
        table = {"str": ("str",), "list": ("list", "Sequence", "MutableSequence", "Iterable", "Collection"), "dict": ("dict", "Mapping", "Iterable", "MutableMapping", "OrderedDict"),
                 "tuple": ("tuple", "Sequence", "Iterable"), "num": ("int", "float", "Number", "Real"), "bool": ("bool", "int"), "set": ("set", "Iterable"),
                 "arr": ("ndarray", "Iterable"), "int": ("int", "Number"), "float": ("float", "Number")}
        if k == "num":
            if v.op == "num":
                if cn == "int":
                    return TRUE if t.isint(v) else FALSE
                if cn == "float":
                    return TRUE if not t.isint(v) else FALSE
                return FALSE
            if cn in ("int", "float", "Number", "Real"):
                nd = self.ndim(fz)
                if t.isint(nd) and nd is not ZERO:
                    return FALSE
            if cn in ("ndarray", "int", "float", "Sequence"):
                return r if cn != "Sequence" else FALSE
            return FALSE if cn in ("str", "list", "dict", "tuple", "set") else r
        if k == "bool" and v not in (TRUE, FALSE):
            return r if cn in ("ndarray", "bool") else FALSE
        if k == "str" and cn in ("Sequence",):
            return TRUE
        if cn == "object":
            return TRUE
        return TRUE if cn in table.get(k, ()) else FALSE

    def b_issubclass(self, a, kw):
        x, c = a
        if c.op == "tuple":
            return t.or_(*[self.b_issubclass([x, k], {}) for k in c.args])
        o = ip_pv(x)
        if o.__class__.__name__ == "Class":
            return TRUE if c in o.mro else FALSE
        if x.op in ("bi", "ext"):
            return TRUE if x is c else FALSE
        return mk("issub", self.ip.fz(x), self.ip.pvname(c) if c.op == "pv" else c)

    def b_getattr(self, a, kw):
        ip = self.ip
        n = ip.fz(a[1])
        if n.op == "ite":
            return ip.branch(n.args[0], lambda: self.b_getattr([a[0], n.args[1]] + a[2:], {}), lambda: self.b_getattr([a[0], n.args[2]] + a[2:], {}))
        if n.op != "str":
            if ip.isobj(a[0]) or a[0].op == "pv":
                raise Undecided("getattr with symbolic name")
            return mk("dynattr", ip.fz(a[0]), n)
        if len(a) == 3:
            c = ip.hasattr(a[0], n.args[0])
            return ip.branch(c, lambda: ip.getattr(a[0], n.args[0]), lambda: a[2])
        return ip.getattr(a[0], n.args[0])

    def b_hasattr(self, a, kw):
        ip = self.ip
        n = ip.fz(a[1])
        if n.op != "str":
            return mk("hasattr", ip.fz(a[0]), n)
        return ip.hasattr(a[0], n.args[0])

    def b_setattr(self, a, kw):
        n = self.ip.fz(a[1])
        if n.op != "str":
            raise Undecided("setattr with symbolic name")
        self.ip.setattr(a[0], n.args[0], a[2])
        return NONE

    def b_delattr(self, a, kw):
        n = self.ip.fz(a[1])
        if a[0].op == "ref" and n.op == "str":
            self.ip.st.put(a[0].args[0], self.ip.cell(a[0]).without_attr(n.args[0]))
            return NONE
        raise Undecided("delattr")

    def b_list(self, a, kw):
        if not a:
            return t.lst()
        return self.ip.as_list(a[0])

    def b_tuple(self, a, kw):
        if not a:
            return t.tup()
        v = self.ip.as_list(a[0])
        return t.tup(*v.args) if v.op == "list" else mk("totuple", v)

    def b_dict(self, a, kw):
        ip = self.ip
        d = mk("dict")
        if a:
            v = ip.val(a[0])
            if v.op == "ite" and t.kind(v) != "dict":
                return ip.branch(v.args[0], lambda: self.b_dict([v.args[1]], kw), lambda: self.b_dict([v.args[2]], kw))
            if t.kind(v) == "dict":
                d = v
            elif v.op in ("list", "cat"):
                segs = ip.segments(v)
                if segs is None:
                    return mk("todict", ip.fz(v))
                for g, e in segs:
                    kv = ip.as_items(e, 2) or [ip.subscript(e, ZERO), ip.subscript(e, ONE)]
                    nd = t.dset(d, ip.key(kv[0]), kv[1])
                    d = nd if g is None else t.ite(g, nd, d)
            elif v.op == "zip" or v.op == "flat":
                r = ip.alloc("val", mk("dict"))

                def bindx(x):
                    self._kv = x

                def body():
                    kv = self._kv
                    k, w = ip.subscript(kv, ZERO), ip.subscript(kv, ONE)
                    c = ip.cell(r)
                    ip.st.put(r.args[0], c.with_val(t.dset(c.val, ip.key(k), w)))
                ip.loop(v, bindx, body)
                d = ip.cell(r).val
            elif v.op == "items":
                d = v.args[0]
            else:
                d = ip.fz(v)
        for k, v in kw.items():
            if k == "**":
                d = ip.dupdate(d, v)
            else:
                d = t.dset(d, t.s(k), v)
        return d

    def b_set(self, a, kw):
        if not a:
            return t.setof(t.lst())
        return self.mkset(self.ip.as_list(a[0]))

    b_frozenset = b_set

    def b_sum(self, a, kw):
        ip = self.ip
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        import ast
        box = [start]
        segs = ip.segments(a[0])
        if segs is not None:
            acc = start
            for g, e in segs:
                if g is None:
                    acc = ip.binop(ast.Add(), acc, e)
                else:
                    cur = acc
                    acc = ip.branch(g, lambda: ip.binop(ast.Add(), cur, e), lambda: cur)
            return acc
        x = ip.fz(a[0])
        if x.op == "cat":
            acc = start
            for p in x.args:
                acc = self.b_sum([p, acc], {})
            return acc
        if x.op == "ite":
            return t.ite(x.args[0], self.b_sum([x.args[1], start], {}), self.b_sum([x.args[2], start], {}))
        sk = t.kind(ip.val(start))
        i = t.fresh("i")
        if x.op == "flat":
            d = x.args[1]
            body = t.open_(x, (i,))

            def conv(y):
                if y.op == "list":
                    if sk == "list":
                        return t.cat(*[z if t.kind(z) == "list" else mk("mapseq", z) for z in y.args])
                    return t.add(ZERO, *y.args)
                if y.op == "ite":
                    return t.ite(y.args[0], conv(y.args[1]), conv(y.args[2]))
                return mk("mapseq", mk("concat", y)) if sk == "list" else mk("pysum", y)
            b = conv(body)
        elif x.op in ("values", "items", "zip", "range", "sym", "attr", "at", "call", "meth", "keys", "mapseq"):
            d = t.dom(*ip.bound(x))
            e = ip.elem(x, i)
            b = (mk("mapseq", e) if t.kind(e) != "list" else e) if sk == "list" else e
        else:
            return mk("pysum", x) if start is ZERO else mk("pysum", x, ip.fz(start))
        if sk == "list":
            return t.cat(ip.val(start), t.bind("flat", d, i, b))
        return t.add(ip.fz(start), t.bind("sumdom", d, i, b))

    def anyall(self, a, isany):
        ip = self.ip
        segs = ip.segments(a)
        f = t.or_ if isany else t.and_
        if segs is not None:
            out = []
            for g, e in segs:
                c = ip.truthof(e)
                if g is not None:
                    c = t.and_(g, c) if isany else t.or_(t.not_(g), c)
                out.append(c)
            return f(*out)
        x = ip.fz(a)
        if x is TRUE or x is FALSE:
            return x
        if x.op == "ite":
            return t.ite(x.args[0], self.anyall(x.args[1], isany), self.anyall(x.args[2], isany))
        L = self.lits.of(x)
        if L is not None:
            return f(*[ip.truthof(e) for e in L.flat])
        if t.is_bool(x):
            if self.ndim(x) is ZERO:
                return x
            return mk("any" if isany else "all", x)
        if x.op == "flat":
            i = t.fresh("i")
            body = t.open_(x, (i,))

            def conv(y):
                if y.op == "list":
                    c = f(*[t.truth(z) for z in y.args])
                    return c
                if y.op == "ite":
                    return t.ite(y.args[0], conv(y.args[1]), conv(y.args[2]))
                raise Undecided("any/all of nested sequences")
            c = conv(body)
            if not isany:
                c = t.not_(c)
            r = t.truth(t.bind("flat", x.args[1], i, t.ite(c, t.lst(ONE), t.lst())))
            return r if isany else t.not_(r)
        return mk("any" if isany else "all", x)

    def b_any(self, a, kw):
        return self.anyall(a[0], True)

    def b_all(self, a, kw):
        return self.anyall(a[0], False)

    def minmax(self, nm, a, kw):
        ip = self.ip
        key = kw.get("key")
        if key is not None and key is not NONE:
            els = list(a)
            if len(a) == 1:
                segs = ip.segments(a[0])
                els = [e for _, e in segs] if segs and all(g is None for g, _ in segs) else None
            if els:
                ks = [ip.fz(ip.call(key, [e], {})) for e in els]
                if all(k.op == "num" for k in ks):
                    ks = [t.numval(k) for k in ks]
                elif all(k.op == "str" for k in ks):
                    ks = [k.args[0] for k in ks]
                else:
                    v = t.fresh("k")
                    return mk("py" + nm + "key", t.bind("lam", [v], ip.fz(ip.call(key, [v], {}))), *[ip.fz(e) for e in els])
                return els[ks.index(min(ks) if nm == "min" else max(ks))]
            v = t.fresh("k")
            return mk("py" + nm + "key", t.bind("lam", [v], ip.fz(ip.call(key, [v], {}))), *([ip.fz(e) for e in a] + [mk("kw", k, ip.fz(x)) for k, x in sorted(kw.items()) if k != "key"]))
        if len(a) == 1:
            segs = ip.segments(a[0])
            if segs is not None and all(g is None for g, _ in segs) and "key" not in kw and segs:
                a = [e for _, e in segs]
            else:
                x = ip.fz(a[0])
                if x.op == "setof":
                    x = x.args[0]
                    if x.op in ("list", "tuple"):
                        return self.minmax(nm, list(x.args) if len(x.args) > 1 else [x], kw) if len(x.args) != 1 else x.args[0]
                v = self.lits.of(x) if x.op == "array" else None
                if v is not None and v.flat and all(t.isnum(e) for e in v.flat):
                    return self.minmax(nm, list(v.flat), {})
                return self.call_ext("np." + nm, [x], {})
        xs = [ip.fz(x) for x in a]
        if len(xs) == 1:
            return xs[0]
        if all(x.op == "num" for x in xs):
            v = [t.numval(x) for x in xs]
            return t.num(min(v) if nm == "min" else max(v))
        if all(x.op == "str" for x in xs):
            v = [x.args[0] for x in xs]
            return t.s(min(v) if nm == "min" else max(v))
        u = sorted(set(xs))
        if len(u) == 1:
            return u[0]
        return mk("py" + nm, *u)

    def b_min(self, a, kw):
        return self.minmax("min", a, kw)

    def b_max(self, a, kw):
        return self.minmax("max", a, kw)

    def b_sorted(self, a, kw):
        ip = self.ip
        segs = ip.segments(a[0])
        key = kw.get("key")
        rev = ip.fz(kw.get("reverse", FALSE))
        if segs is not None and all(g is None for g, _ in segs) and rev in (TRUE, FALSE):
            items = [e for _, e in segs]
            ks = [ip.fz(ip.call(key, [e], {})) if key is not None and key is not NONE else ip.fz(e) for e in items]
            if all(k.op == "str" for k in ks) or all(k.op == "num" for k in ks) or (
                    all(k.op == "tuple" and all(x.op in ("str", "num") for x in k.args) for k in ks)):
                order = sorted(range(len(items)), key=lambda i: tuple(x.args[0] for x in ks[i].args) if ks[i].op == "tuple" else ks[i].args[0], reverse=rev is TRUE)
                return t.lst(*[items[i] for i in order])
            if len(items) <= 1:
                return t.lst(*items)
        x = ip.fz(a[0])
        if x.op == "keys":
            x = x.args[0]
        if x.op in ("dict", "dset", "dflat"):
            x = t.keys(x)
        ka = []
        if key is not None and key is not NONE:
            v = t.fresh("k")
            ka = [t.bind("lam", [v], ip.fz(ip.call(key, [v], {})))]
        if rev is not FALSE:
            ka.append(mk("kw", "reverse", rev))
        if x.op in ("list", "tuple", "setof"):
            # permutation of the same elements
            els = x.args[0].args if x.op == "setof" and x.args[0].op == "list" else (x.args if x.op != "setof" else None)
            if els is not None:
                return mk("sorted", t.lst(*sorted(els)), *ka)
        return mk("sorted", x, *ka)

    def b_reversed(self, a, kw):
        segs = self.ip.segments(a[0])
        if segs is not None:
            return t.cat(*[t.lst(e) if g is None else t.ite(g, t.lst(e), t.lst()) for g, e in reversed(segs)])
        return self.opaque("builtins.reversed", [self.ip.fz(a[0])], {})

    def b_float(self, a, kw):
        x = self.ip.fz(a[0]) if a else ZERO
        if x.op == "str":
            try:
                return t.num(float(x.args[0]))
            except ValueError:
                self.ip.raise_(self.ip.exc("ValueError"))
        if t.kind(x) == "str":
            return mk("call", "builtins.float", x)
        return x

    def b_int(self, a, kw):
        if not a:
            return ZERO
        x = self.ip.fz(a[0])
        if x.op == "num":
            return t.num(int(t.numval(x)))
        if x.op == "str":
            try:
                return t.num(int(x.args[0]))
            except ValueError:
                self.ip.raise_(self.ip.exc("ValueError"))
        if x in (TRUE, FALSE):
            return ONE if x is TRUE else ZERO
        if x.op in ("len",):
            return x
        return self.opaque("builtins.int", [x], {})

    def b_complex(self, a, kw):
        a = [self.ip.fz(x) for x in a]
        return t.add(a[0], t.mul(mk("I"), a[1])) if len(a) > 1 else a[0]

    def b_str(self, a, kw):
        if not a:
            return t.s("")
        r = self.ip.tostr(a[0])
        if t.kind(r) == "str" or r.op == "strf":
            return r
        return t.scat(r)

    def b_repr(self, a, kw):
        if self.ip.isobj(a[0]):
            r = self.ip.try_dunder(a[0], "__repr__", [])
            if r is not None:
                return r
        return mk("strf", "!r", self.ip.fz(a[0]))

    def b_bool(self, a, kw):
        return self.ip.truthof(a[0]) if a else FALSE

    def b_abs(self, a, kw):
        return t.abs_(self.ip.fz(a[0]))

    def b_round(self, a, kw):
        r = fold.call(self, "np.round", a, kw)
        if r is not None:
            return r
        return self.opaque("np.round", [self.ip.fz(x) for x in a], {})

    def b_pow(self, a, kw):
        return t.pow_(self.ip.fz(a[0]), self.ip.fz(a[1]))

    def b_print(self, a, kw):
        return NONE

    def b_type(self, a, kw):
        ip = self.ip
        if len(a) == 3:
            nm = ip.fz(a[0])
            from .interp import Class, newpv, Cell
            if nm.op != "str":
                raise Undecided("type()")
            cls = Class(nm.args[0], list(ip.as_items(a[1])), ip.fr.mod, "?." + nm.args[0])
            pv = newpv(cls)
            cls.pv = pv
            cls.mro = ip.mro(cls)
            d = ip.val(a[2])
            ip.st.put(pv.args[0], Cell("cls", None, {d.args[i].args[0]: d.args[i + 1] for i in range(0, len(d.args), 2)}, pv))
            return pv
        x = a[0]
        if ip.isobj(x):
            return ip.cell(x).cls
        if x.op == "pv" and ip_pv(x).__class__.__name__ == "Class":
            return ip.metaof(x) or mk("bi", "type")
        v = ip.val(x)
        k = t.kind(v)
        if k in ("str", "list", "dict", "tuple", "set"):
            return mk("bi", k)
        return mk("typeof", ip.fz(v))

    def b_slice(self, a, kw):
        a = [self.ip.fz(x) for x in a]
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        return mk("slice", a[0], a[1], a[2] if len(a) > 2 and a[2] is not ONE else NONE)

    def b_map(self, a, kw):
        ip = self.ip
        r = ip.alloc("val", t.lst())
        src = a[1] if len(a) == 2 else self.b_zip(a[1:], {})

        def bindx(x):
            self._mx = x

        def body():
            x = self._mx
            v = ip.call(a[0], [x] if len(a) == 2 else list(ip.as_items(x, len(a) - 1)), {})
            c = ip.cell(r)
            ip.st.put(r.args[0], c.with_val(t.cat(c.val, t.lst(v))))
        ip.loop(src, bindx, body)
        return ip.cell(r).val

    def b_filter(self, a, kw):
        ip = self.ip
        r = ip.alloc("val", t.lst())

        def bindx(x):
            self._mx = x

        def body():
            x = self._mx
            c = ip.truthof(ip.call(a[0], [x], {}) if a[0] is not NONE else x)

            def add():
                cc = ip.cell(r)
                ip.st.put(r.args[0], cc.with_val(t.cat(cc.val, t.lst(x))))
            ip.branch(c, add, lambda: None)
        ip.loop(a[1], bindx, body)
        return ip.cell(r).val

    def b_callable(self, a, kw):
        return self.ip.hasattr(a[0], "__call__")

    def b_iter(self, a, kw):
        return self.ip.as_list(a[0])

    def b_next(self, a, kw):
        ip = self.ip
        segs = ip.segments(a[0])
        if segs is not None:
            def go(k):
                if k == len(segs):
                    if len(a) > 1:
                        return a[1]
                    ip.raise_(ip.exc("StopIteration"))
                g, e = segs[k]
                if g is None:
                    return e
                return ip.branch(g, lambda: e, lambda: go(k + 1))
            return go(0)
        x = ip.fz(a[0])
        if x.op == "flat":
            # first element of a filtered symbolic sequence
            if len(a) > 1:
                return t.ite(t.truth(x), mk("head", x), a[1])
            ip.raise_(ip.exc("StopIteration"), t.not_(t.truth(x)))
            return mk("head", x)
        return self.opaque("builtins.next", [x] + [ip.fz(y) for y in a[1:]], {})

    def b_id(self, a, kw):
        return t.salted(mk("id", a[0] if a[0].op in ("ref", "sym") else self.ip.fz(a[0])))

    def b_hash(self, a, kw):
        x = self.ip.fz(a[0])
        r = mk("call", "builtins.hash", x)
        # (within loops over symbolic containers, where it serves as a key, taken as is)
        return r if t.samehash(x) or x.op not in ("str", "bytes", "ref", "obj", "sym", "attr", "tuple", "pv", "pub") else t.salted(r)

    def b_vars(self, a, kw):
        return self.ip.getattr(a[0], "__dict__")

    def b_property(self, a, kw):
        from .interp import newpv, Wrap
        return newpv(Wrap("property", a[0]))

    def b_staticmethod(self, a, kw):
        from .interp import newpv, Wrap
        return newpv(Wrap("staticmethod", a[0]))

    def b_classmethod(self, a, kw):
        from .interp import newpv, Wrap
        return newpv(Wrap("classmethod", a[0]))

    def b_object(self, a, kw):
        return self.ip.alloc("val", mk("object"))

    def b___objinit__(self, a, kw):
        return NONE

    def b___extinit__(self, a, kw):
        # external base initialiser called on an instance: content
        from .interp import Cell
        ip = self.ip
        obj = a[0]
        c = ip.cell(obj)
        eb = ip.ext_base(c.cls)
        v = ip.call(eb, a[1:], kw)
        ip.st.put(obj.args[0], Cell("obj", ip.fz(v), c.attrs, c.cls))
        return NONE

    def b___objnew__(self, a, kw):
        from .interp import Cell
        ip = self.ip
        obj = ip.alloc("obj", None, {}, a[0])
        eb = ip.ext_base(a[0])
        if eb is not None:
            ip.st.put(obj.args[0], Cell("obj", mk("sub", eb), {}, a[0]))
        return obj

    def b_open(self, a, kw):
        r = self.opaque("builtins.open", [self.ip.fz(x) for x in a], {k: self.ip.fz(v) for k, v in kw.items()})
        mode = self.ip.fz(a[1]) if len(a) > 1 else kw.get("mode", t.s("r"))
        if mode.op != "str" or any(c in mode.args[0] for c in "wax+"):
            self.effect(r)
        return r

    def effect(self, x):
        st = self.ip.st
        st.eff = t.cat(st.eff, t.lst(x))

    # ---------------------------------------------------------------- external functions
    def call_ext(self, name, args, kw):
        ip = self.ip
        name = ALIAS.get(name, name)
        if name.startswith("builtins."):
            rest = name[9:]
            if "." not in rest:
                return self.call_builtin(rest, args, kw)
            base, meth = rest.split(".", 1)
            if base == "dict" and meth == "fromkeys":
                segs = ip.segments(args[0])
                if segs is not None and all(g is None for g, _ in segs):
                    d = mk("dict")
                    for _, k in segs:
                        d = t.dset(d, ip.key(k), args[1] if len(args) > 1 else NONE)
                    return d
            if args:
                return self.call_method(args[0], meth, args[1:], kw)
        from .interp import EXCS
        if name in EXCS or name.split(".")[-1] in EXCS or name.endswith("Error"):
            return mk("exc", name.split(".")[-1])
        r = self.inplace_call(name, args, kw)
        if r is not None:
            return r
        m = EXTF.get(name)
        self.cur = name
        if name in SIG and SIG[name] is not None:
            args, kw = self.bindsig(name, args, kw)
        if name in ip.externs:
            return ip.call(ip.externs[name], args, kw)
        if name in fold.TABLE:
            r = fold.call(self, name, args, kw)
            if r is not None:
                return r
        if m is not None:
            r = m(self, args, kw)
            if r is not None:
                return r
        fa = [ip.arg(a) for a in args]
        fk = {k: ip.arg(v) for k, v in kw.items()}
        return self.generic(name, fa, fk)

    def inplace_call(self, name, args, kw):
        """library functions that write to one of their arguments"""
        ip = self.ip
        nin = UFUNC.get(name)
        out = None
        if "out" in kw and ip.fz(kw["out"]) is not NONE and (name.startswith("np.") or name.startswith("meth.")):
            kw = dict(kw)
            out = kw.pop("out")
        elif nin is not None and len(args) == nin + 1 and args[-1] is not NONE:
            args, out = list(args[:-1]), args[-1]
        if out is not None:
            o = ip.val(out)
            if o.op == "tuple" and len(o.args) == 1:
                out = o.args[0]
            r = ip.fz(self.call_ext(name, args, kw))
            self.overwrite(out, r)
            return out
        if name in INPLACE and args:
            if name == "np.nan_to_num" and not ("copy" in kw and ip.fz(kw["copy"]) is FALSE):
                return None
            x, rest = args[0], [ip.fz(a) for a in args[1:]]
            cur = ip.fz(x)
            if name == "np.copyto" and len(args) == 2 and not kw:
                self.overwrite(x, rest[0])
                return NONE
            v = self.lits.of(cur) if cur.op in ("array", "zeros", "ones", "eye") else None
            if name == "np.fill_diagonal" and v is not None and v.nd == 2 and len(rest) == 1 and not kw and rest[0].op not in ("array", "list", "tuple"):
                from .lit import Lit
                n, m = v.dims
                self.overwrite(x, Lit(v.dims, [rest[0] if i // m == i % m else e for i, e in enumerate(v.flat)]).term())
                return NONE
            w = mk("mutby", name, cur, *rest, *[mk("kw", k, ip.fz(y)) for k, y in sorted(kw.items())])
            if name == "np.random.shuffle":
                d = mk("random", name, ip.st.rng, cur)
                ip.st.rng = mk("rngnext", d)
                w = mk("at", cur, d)
            ip.update(x, lambda c: w)
            return x if name == "np.nan_to_num" else NONE
        for k, i in (("overwrite_a", 0), ("overwrite_b", 1 if not name.endswith("cho_solve") else 1), ("overwrite_x", 0)):
            if k in kw:
                kw = dict(kw)
                if ip.fz(kw.pop(k)) is not FALSE and len(args) > i:
                    keep = ip.fz(args[i])
                    r = self.call_ext(name, [ip.fz(a) for a in args], kw)
                    self.scribble(args[i], name, keep)
                    return r
                return self.call_ext(name, args, kw)
        return None

    def scribble(self, x, name, keep):
        """the content of x after the call is not specified"""
        if x.op == "tuple":
            return
        y = self.ip.val(x)
        if x.op == "ref" or y.op in ("sym", "attr", "fv") or y.op == "at":
            self.ip.update(x, lambda c: mk("mutby", name, keep))

    def overwrite(self, x, r):
        """x[...] = r"""
        if self.ndim(r) is ZERO or r.op in ("num", "pi", "E"):
            r = self.ip.arith("Add", self.ip.arith("Mult", self.ip.fz(x), ZERO), r) if self.lits.of(self.ip.fz(x)) is not None else t.store(self.ip.fz(x), ELLIPSIS_INDEX, r)
        if x.op == "ref" and self.ip.cell(x).kind in ("view", "obj"):
            self.ip.store_sub(x, ELLIPSIS_INDEX, r)
            return
        self.ip.update(x, lambda c: r)

    def generic(self, name, fa, fk):
        ip = self.ip
        if name.startswith("np.random.") and name not in SEEDED and name != "np.random.seed" or name.endswith(".rvs") or name.startswith("random.") and name not in SEEDED:
            v = mk("random", name, ip.st.rng, *fa, *[mk("kw", k, x) for k, x in sorted(fk.items())])
            ip.st.rng = mk("rngnext", v)
            if name in ("np.random.uniform", "np.random.normal"):
                L = self.lits.of(v)
                if L is not None:
                    return L.term()
            return v
        # lift ite in scalar-condition arguments out of unary functions
        if len(fa) == 1 and not fk and fa[0].op == "ite" and name.startswith("np."):
            x = fa[0]
            return t.ite(x.args[0], self.call_ext(name, [x.args[1]], {}), self.call_ext(name, [x.args[2]], {}))
        r = self.opaque(name, fa, fk)
        if name in UNSTABLE or name.startswith(UNSTABLE_MODULES) or name in SEEDED and not [x for x in fa if x is not NONE] and not fk:
            r = t.salted(r)
        if any(name == e or (e.endswith(".") and name.startswith(e)) for e in EFFECTS):
            self.effect(r)
        return r

    def bindsig(self, name, args, kw):
        sig = SIG[name]
        kw = dict(kw)
        args = list(args)
        for p in sig[len(args):]:
            if p in kw:
                args.append(kw.pop(p))
            else:
                break
        # trailing defaults
        df = DEFAULTS.get(name, {})
        while args and len(args) <= len(sig) and sig[len(args) - 1] in df and self.ip.fz(args[-1]) is df[sig[len(args) - 1]]:
            args.pop()
        for k in list(kw):
            if k in df and self.ip.fz(kw[k]) is df[k]:
                del kw[k]
        return args, kw

    def realish(self, x):
        if x.op in ("num", "pi", "E", "len"):
            return True
        if x.op in ("poly", "mono"):
            return all(self.realish(y) for y in x.args if isinstance(y, T))
        if x.op in ("exp", "log", "cos", "sin"):
            return self.realish(x.args[0])
        return self.ip.known.get(mk("kindof", x)) in (t.s("float"), t.s("int"))

    def reim(self, f, name):
        """real or imaginary part"""
        re, im = [], []
        for k, c in t._monos(f).items():
            d = [(a, e) for a, e in k if a.op != "I"]
            if not all(self.realish(a) and self.realish(e) for a, e in d):
                return mk("attr", f, name)
            (im if len(d) < len(k) else re).append(t._mono_t(tuple(d), c))
        return t.add(*(re if name == "real" else im))

    # ---------------------------------------------------------------- attributes of values
    def getattr_val(self, b, x, name, default=None, obj=False):
        """attribute of a non-object value; b: the location, x: its content"""
        ip = self.ip
        if x.op == "ite" and name not in ("T",):
            return ip.branch(x.args[0], lambda: self.getattr_val(x.args[1], x.args[1], name, default), lambda: self.getattr_val(x.args[2], x.args[2], name, default))
        if x.op in ("sym", "attr", "at", "fv", "bv", "call", "meth", "apply", "head", "typeof"):
            p = mk("attr", x, name)
            if p in ip.st.over:
                v = ip.st.over[p]
                return v
        f = ip.fz(x)
        if name == "T":
            return self.tr(f)
        if name == "shape":
            return self.shape(f)
        if name == "nbytes" and (f.op in ("array", "zeros", "ones") or t.kind(f) == "arr" or ip.known.get(mk("kindof", f)) is t.s("arr")):
            return t.mul(self.sizeof(f), mk("attr", f, "itemsize"))
        if name == "itemsize" and f.op == "attr" and f.args[1] == "dtype":
            return mk("attr", f.args[0], "itemsize")
        if name == "size":
            n = self.sizeof(f)
            if n.op == "num":
                return n
        if name == "size" and f.op not in ("sym", "at", "attr", "call", "meth", "fv", "bv", "apply"):
            return mk("attr", f, "size")
        if name == "ndim":
            return self.ndim(f)
        if f.op == "rec" and name == "shape":
            return t.tup(f.args[0])
        if f.op == "attr" and f.args[1] == "dtype" and f.args[0].op == "rec" and name == "names":
            return t.tup(*f.args[0].args[1].args[::2])
        if name == "real" or name == "imag":
            L = self.lits.of(f) if f.op in ("array", "zeros", "ones") else None
            if L is not None:
                return Lit(L.dims, [self.reim(e, name) for e in L.flat]).term()
            return self.reim(f, name)
        if name == "flat":
            return mk("attr", f, name)
        if x is NONE:
            if default is not None:
                return default
            ip.raise_(ip.exc("AttributeError"))
        if name == "__class__":
            return self.b_type([x], {})
        if f.op == "argspec":
            i = {"args": 0, "defaults": 1, "varargs": 2, "varkw": 3, "keywords": 3}.get(name)
            if i is not None:
                return f.args[i]
        if f.op == "slice" and name in ("start", "stop", "step"):
            return f.args[("start", "stop", "step").index(name)]
        if f.op == "obj":
            raise Undecided("attribute of frozen object")
        if f.op == "exc":
            return mk("attr", f, name)
        k = t.kind(f)
        if k in ("str", "list", "dict", "tuple", "set"):
            return mk("meth_of", b, name)
        if name in METHODNAMES:
            return mk("meth_of", b, name)
        if f.op in ("num", "mono", "poly"):
            return mk("meth_of", b, name)
        if f.op in ("true", "false"):
            if default is not None:
                return default
        r = mk("attr", f, name)
        if default is not None:
            c = self.hasattr_val(f, name)
            kn = ip.known.get(c, c)
            return t.ite(kn, r, default)
        ip.note("attr", mk("key", f, t.s(name)))
        return ip.known.get(r, r)

    def hasattr_val(self, f, name):
        ip = self.ip
        if f.op == "ite":
            return t.ite(f.args[0], self.hasattr_val(f.args[1], name), self.hasattr_val(f.args[2], name))
        k = t.kind(f)
        if name == "__call__" and (k != "?" or f.op in ("zeros", "ones", "array", "none")):
            return FALSE
        if k == "str":
            return TRUE if hasattr("", name) else FALSE
        if k == "list":
            return TRUE if hasattr([], name) else FALSE
        if k == "dict":
            return TRUE if hasattr({}, name) else FALSE
        if k == "tuple":
            return TRUE if hasattr((), name) else FALSE
        if f is NONE or f.op in ("true", "false", "ellipsis"):
            return FALSE
        kd = ip.known.get(mk("kindof", f))
        if kd is not None and kd.args[0] in KINDATTR:
            return TRUE if hasattr(KINDATTR[kd.args[0]], name) or (kd.args[0] == "arr" and name in ARRATTR) else FALSE
        if f.op in ("array", "zeros", "ones", "eye", "diag", "store", "cat"):
            return TRUE if name in NDNAMES else FALSE
        if f.op == "num" and (name in ("value", "shape", "ndim", "__len__", "params", "name") or not (hasattr(0, name) or hasattr(0., name) or name in NDNAMES)):
            return FALSE
        c = mk("hasattr", f, t.s(name))
        if f.op == "sym" or f.op == "attr":
            ka = ip.known.get(mk("attrsof", f))
            if ka is not None:
                return TRUE if t.s(name) in ka.args else FALSE
        return ip.known.get(c, c)

    def tr(self, f):
        if f.op not in ("zeros", "eye", "diag", "ite") and self.ndim(f) in (ONE, ZERO):
            return f
        if f.op == "dot":
            return mk("dot", *[self.tr(x) for x in reversed(f.args)])
        if f.op == "array" and f.args[0].op in ("list",):
            d = self.lits.of(f)
            if d is not None and d.nd == 2:
                return self.lits.tr(d).term()
            return mk("T", f)
        if f.op == "diag" or f.op == "eye":
            return f
        if f.op == "zeros" and f.args[1].op == "tuple":
            return mk("zeros", f.args[0], t.tup(*reversed(f.args[1].args)))
        return t.tr(f)

    def joint(self, shs):
        """shape of the product of arrays whose dimensions are all known numbers"""
        shs = list(shs)
        if not all(x.op == "tuple" and all(t.isint(d) for d in x.args) for x in shs):
            return None
        n = max(len(x.args) for x in shs)
        out = []
        for i in range(n):
            ds = {int(t.numval(x.args[len(x.args) - n + i])) for x in shs if len(x.args) - n + i >= 0}
            big = ds - {1}
            if len(big) > 1:
                return None
            out.append(t.num(big.pop() if big else 1))
        return t.tup(*out)

    def shape(self, f):
        if f.op in ("zeros", "ones"):
            sh = f.args[-1]
            if sh.op == "shape" or sh.op == "tuple":
                return sh
            return t.tup(sh) if t.kind(sh) == "num" or sh.op in ("at",) else sh
        if f.op == "store":
            return self.shape(f.args[0])
        if f.op == "sflat":
            return self.shape(f.args[3])
        if f.op == "T":
            s_ = self.shape(f.args[0])
            if s_.op == "tuple":
                return t.tup(*reversed(s_.args))
        if f.op in ("mono", "poly") and self.ip.known.get(mk("shape", f)) is None:
            # elementwise product with scalars, or sum of arrays of one shape
            shs = []
            for key in t._monos(f):
                fs = [x for x, e in key if not self.scalarish(x)]
                if not fs:
                    continue
                ss = {self.shape(x) for x in fs}
                shs.append(ss.pop() if len(ss) == 1 else self.joint(ss))
            if shs and all(x is not None and x is shs[0] for x in shs):
                return shs[0]
        if f.op == "eye":
            return t.tup(f.args[0], f.args[0])
        if f.op == "diag" and len(f.args) == 1:
            sh = self.shape(f.args[0])
            if sh.op == "tuple" and len(sh.args) == 1:
                return t.tup(sh.args[0], sh.args[0])
            if sh.op == "tuple" and len(sh.args) == 2 and sh.args[0] is sh.args[1]:
                return t.tup(sh.args[0])
        if f.op == "array":
            d = self.lits.of(f)
            if d is not None:
                return t.tup(*[t.num(k) for k in d.dims])
            if f.args[0].op == "list" and f.args[0].args:
                shs = {self.shape(r) for r in f.args[0].args}
                if len(shs) == 1:
                    r = shs.pop()
                    if r.op == "tuple" and r.args:
                        return t.tup(t.num(len(f.args[0].args)), *r.args)
        kn = self.ip.known.get(mk("shape", f))
        if kn is not None:
            return kn
        if f.op == "SOLVE":
            return self.shape(f.args[1])
        if f.op == "call" and f.args[0] in ("np.tril", "np.triu") and len(f.args) == 2:
            return self.shape(f.args[1])
        if f.op == "call" and f.args[0] == "np.reshape" and len(f.args) == 3 and f.args[2].op == "tuple" and all(t.isint(d) and t.numval(d) >= 0 for d in f.args[2].args):
            return f.args[2]
        if f.op == "at" and t.isint(f.args[1]):
            b, k = f.args[0], int(t.numval(f.args[1]))
            if b.op == "cho" and k == 0:
                return self.shape(b.args[0])
            if b.op == "call" and b.args[0] in ("np.linalg.svd", "scipy.linalg.qr", "np.linalg.qr") and len(b.args) >= 2:
                sh = self.shape(b.args[1])
                if b.args[0] == "np.linalg.svd" and len(b.args) == 3 and b.args[2] is FALSE and sh.op == "tuple" and len(sh.args) == 2 and all(t.isint(z) for z in sh.args):
                    m_ = t.num(min(t.numval(z) for z in sh.args))
                    return (t.tup(sh.args[0], m_), t.tup(m_), t.tup(m_, sh.args[1]))[k]
                if sh.op == "tuple" and len(sh.args) == 2 and sh.args[0] is sh.args[1]:
                    return t.tup(sh.args[0]) if b.args[0].endswith("svd") and k == 1 else sh
        if f.op == "call" and f.args[0] == "scipy.linalg.solve_triangular":
            return self.shape(f.args[2])
        if f.op == "call" and f.args[0] == "np.concatenate" and len(f.args) == 2 and f.args[1].op == "list":
            shs = [self.shape(x) for x in f.args[1].args]
            if shs and all(x.op == "tuple" and len(x.args) == 1 for x in shs):
                return t.tup(t.add(ZERO, *[x.args[0] for x in shs]))
        if f.op == "random" and f.args[0] in ("np.random.randn", "np.random.rand") and len(f.args) > 2 and all(t.isint(x) for x in f.args[2:]):
            return t.tup(*f.args[2:])
        if f.op == "dot" and self.ip.known.get(mk("shape", f)) is None:
            shs = [self.shape(x) for x in f.args]
            if all(x.op == "tuple" and 1 <= len(x.args) <= 2 for x in shs) and all(len(x.args) == 2 for x in shs[1:-1]):
                return t.tup(*(shs[0].args[:-1] + (shs[-1].args[1:] if len(shs[-1].args) > 1 else ())))
        if f.op == "at":
            sh = self.shape(f.args[0])
            ks = f.args[1].args if f.args[1].op == "tuple" else (f.args[1],)
            if sh.op == "tuple" and len(ks) <= len(sh.args):
                out, adv = [], 0
                for d, k in zip(sh.args, list(ks) + [t.FULL] * (len(sh.args) - len(ks))):
                    if k is t.FULL:
                        out.append(d)
                    elif t.isint(k):
                        pass
                    elif k.op == "slice" and t.isint(d) and all(z is NONE or t.isint(z) for z in k.args):
                        out.append(t.num(len(range(int(t.numval(d)))[slice(*[None if z is NONE else int(t.numval(z)) for z in k.args])])))
                    elif k.op == "array" and self.lits.of(k) is not None and self.lits.of(k).nd == 1 and all(t.isint(e) for e in self.lits.of(k).flat):
                        out.append(t.num(self.lits.of(k).dims[0]))
                        adv += 1
                    else:
                        adv = 9
                        break
                if adv <= 1:
                    return t.tup(*out)
        n = self.ip.known.get(mk("ndim", f))
        if n is not None and t.isint(n):
            k = int(t.numval(n))
            return t.tup(*([t.len_(f)] + [t.at(mk("shape", f), t.num(i)) for i in range(1, k)])) if k else t.tup()
        return mk("shape", f)

    def scalarish(self, f):
        k = self.ip.known.get(mk("ndim", f))
        if k is not None:
            return k is ZERO
        if f.op in ("num", "pi", "E", "I", "npsum", "LOGDET", "len"):
            return True
        if f.op in ELEM1 or f.op == "pow":
            return all(self.scalarish(a) for a in f.args)
        if f.op in ("mono", "poly"):
            return all(self.scalarish(x) for key in t._monos(f) for x, e in key)
        if f.op in ("pymin", "pymax"):
            return all(self.scalarish(x) for x in f.args)
        if f.op == "ite":
            return self.scalarish(f.args[1]) and self.scalarish(f.args[2])
        return False

    def condnd(self, c):
        """the dimension of the condition of an element-wise choice is known"""
        if c in (TRUE, FALSE):
            return True
        if c.op in ("and", "or", "not"):
            return any(self.condnd(x) for x in c.args)
        xs = c.args if c.op in ("eq", "eq0", "pos", "nneg", "truth") else (c,)
        return any(isinstance(x, t.T) and x.op not in ("num", "str", "none") and t.isint(self.ndim(x)) for x in xs)

    def ndim(self, f):
        ip = self.ip
        k = ip.known.get(mk("ndim", f))
        if k is not None:
            return k
        if f.op == "ite":
            return t.ite(f.args[0], self.ndim(f.args[1]), self.ndim(f.args[2]))
        if f.op == "num" or f.op in ("pi", "E", "I", "npsum", "LOGDET", "len"):
            return ZERO
        sh = self.shape(f)
        if sh.op == "tuple":
            return t.num(len(sh.args))
        if f.op == "T" or f.op in ELEM1:
            return self.ndim(f.args[0])
        if f.op == "SOLVE":
            return self.ndim(f.args[1])
        if f.op == "at":
            n = self.ndim(f.args[0])
            if t.isint(n):
                n = int(t.numval(n))
                ks = f.args[1].args if f.args[1].op == "tuple" else (f.args[1],)
                adv = 0
                for k in ks:
                    if k.op == "slice":
                        continue
                    if k.op == "num":
                        n -= 1
                    elif k is NONE:
                        n += 1
                    elif k.op == "ellipsis":
                        continue
                    elif not t.is_bool(k) and self.ndim(k) is ZERO:
                        n -= 1
                    elif self.ndim(k) is ONE:
                        adv += 1
                    else:
                        return mk("ndim", f)
                if adv <= 1:
                    return t.num(n) if n >= 0 else mk("ndim", f)
        if f.op == "INV":
            return t.num(2)
        if f.op == "store":
            return self.ndim(f.args[0])
        if f.op == "dot":
            ns = [self.ndim(x) for x in f.args]
            if all(t.isint(n) for n in ns):
                d = t.numval(ns[0])
                for n in ns[1:]:
                    d += t.numval(n) - 2
                return t.num(d)
        if f.op == "random" and f.args[0] in ("np.random.uniform", "np.random.normal"):
            if len(f.args) > 4:
                return ONE if t.isint(f.args[4]) else mk("ndim", f)
            ns = [self.ndim(x) for x in f.args[2:]]
            if all(t.isint(n) for n in ns):
                return t.num(max([0] + [t.numval(n) for n in ns]))
        if f.op in ("pos", "nneg", "eq0", "eq", "not", "and", "or") and f.args:
            ns = [self.ndim(x) for x in f.args if isinstance(x, T)]
            if ns and all(t.isint(n) for n in ns):
                return t.num(max(t.numval(n) for n in ns))
        if f.op in ("list", "tuple"):
            if f.args:
                return t.add(ONE, self.ndim(f.args[0]))
            return ONE
        if f.op == "mono":
            ns = [self.ndim(f.args[i]) for i in range(1, len(f.args), 2)]
            if all(t.isint(n) for n in ns):
                return t.num(max(t.numval(n) for n in ns))
        if f.op == "poly":
            ns = [self.ndim(m) for m in f.args]
            if all(t.isint(n) for n in ns):
                return t.num(max(t.numval(n) for n in ns))
        if f.op == "call" and len(f.args) > 1 and (f.args[0] in ("scipy.special.erf", "scipy.special.erfc", "scipy.special.gamma", "scipy.special.gammaln")
                                                   or f.args[0].startswith("scipy.stats.") and f.args[0].endswith((".pdf", ".ppf", ".logpdf", ".cdf"))):
            ns = [self.ndim(x.args[1] if x.op == "kw" else x) for x in f.args[1:]]
            if all(t.isint(n) for n in ns):
                return t.num(max(t.numval(n) for n in ns))
        return mk("ndim", f)

    # ---------------------------------------------------------------- methods
    def call_method(self, b, name, args, kw):
        ip = self.ip
        if b.op == "superof":
            return self.super_method(b.args[0], name, args, kw)
        if b.op == "ite":
            return ip.branch(b.args[0], lambda: ip.call(ip.getattr(b.args[1], name), args, kw), lambda: ip.call(ip.getattr(b.args[2], name), args, kw))
        x = ip.val(b)
        if x.op == "ite" and not (b.op == "ref" and ip.isobj(b)):
            def arm(y):
                if y.op == "ref":
                    return ip.call(ip.getattr(y, name), args, kw)
                if b.op == "ref" and ip.cell(b).kind == "val":
                    ip.st.put(b.args[0], ip.cell(b).with_val(y))
                    return self.call_method(b, name, args, kw)
                if b.op != "ref" and b in ip.st.over:
                    ip.st.over[b] = y
                    return self.call_method(b, name, args, kw)
                return ip.call(ip.getattr(y, name), args, kw)
            return ip.branch(x.args[0], lambda: arm(x.args[1]), lambda: arm(x.args[2]))
        if ip.isobj(b):
            c = ip.cell(b)
            if name == "_binopt" and len(args) == 2 and ip.fz(args[1]) is t.s("_plus_"):
                return ip.alloc("obj", ip.arith("Add", ip.fz(c.val), ip.fz(args[0])), {}, c.cls)
            if name in ("_binopt", "astype") or name == "copy":
                r = self.opaque("meth:" + name, [ip.fz(c.val)] + [ip.arg(a) for a in args], {k: ip.arg(v) for k, v in kw.items()}) if name != "copy" else ip.fz(c.val)
                return ip.alloc("obj", r, dict(c.attrs), c.cls)
            x = c.val
        if x.op == "slice" and name == "indices" and len(args) == 1:
            n = ip.fz(args[0])
            if t.isint(n) and all(a is NONE or t.isint(a) for a in x.args):
                r = slice(*[None if a is NONE else int(t.numval(a)) for a in x.args]).indices(int(t.numval(n)))
                return t.tup(*[t.num(v) for v in r])
        if x.op == "bytes" and name == "decode":
            try:
                return t.s(x.args[0].decode())
            except UnicodeDecodeError:
                raise Undecided("decode")
        if x.op == "str" and name in STRMETH and not kw:
            r = strmeth(x.args[0], name, [ip.fz(a) for a in args])
            if r is not None:
                return r
        k = t.kind(x)
        m = getattr(self, "m_" + k + "_" + name, None)
        if m is not None:
            r = m(b, x, args, kw)
            if r is not None:
                return r
        f = ip.fz(x)
        if k == "?":
            # unknown receiver: name-specific models
            m = getattr(self, "m_any_" + name, None)
            if m is not None:
                r = m(b, f, args, kw)
                if r is not None:
                    return r
        if name in IDENT_METHODS and k not in ("str",) and not args:
            return self.fresh(f) if name == "copy" else f
        if name in METHODS_AS_FUNCS and k in ("?", "num", "bool", "list"):
            return self.call_ext(METHODS_AS_FUNCS[name], [f] + args, kw)
        r = mk("meth", name, f, *[ip.arg(a) for a in args], *[mk("kw", kk, ip.arg(v)) for kk, v in sorted(kw.items())])
        ip.note("op", t.s(name))
        if name in EFFECT_METHODS:
            self.effect(r)
        if name in MUTATORS and k in ("?", "list", "dict", "set"):
            ip.update(b, lambda cur: mk("mutby", name, ip.fz(cur), *r.args[2:]))
            return NONE if name != "popitem" else r
        return ip.known.get(r, r)

    def sparsebase(self, obj):
        b = self.ip.ext_base(self.ip.cell(obj).cls)
        return b is not None and b.op == "ext" and "sparse" in b.args[0]

    def kindof_arr(self, x):
        return self.ip.known.get(mk("kindof", x)) is t.s("arr")

    def super_method(self, obj, name, args, kw):
        ip = self.ip
        c = ip.cell(obj)
        import ast
        ops = {"__add__": ast.Add, "__radd__": ast.Add, "__mul__": ast.Mult, "__sub__": ast.Sub}
        if name in ops and c.val is not None:
            o = args[0]
            if name == "__add__" and ip.isobj(o) and ip.cell(o).val is None:
                # numpy adds element by element through the other operand's __radd__; 1 stands for an element
                m = ip.find_method(o, "__radd__")
                if m is None:
                    ip.raise_(ip.exc("TypeError"))
                ip.call(m, [o, ONE], {})
                return mk("objarray", ip.fz(c.val), ip.fz(o))
            if name == "__add__" and ip.isobj(o) and self.sparsebase(o) and not self.sparsebase(obj):
                return mk("notimpl")        # numpy leaves the operation to the sparse matrix
            r = ip.arith({"__add__": "Add", "__radd__": "Add", "__mul__": "Mult", "__sub__": "Sub"}[name], ip.fz(c.val), ip.fz(args[0]))
            return ip.alloc("obj", r, {}, c.cls)
        return self.call_method(c.val, name, args, kw)

    # list
    def m_list_append(self, b, x, a, kw):
        v = self.ip.alias(a[0])
        self.ip.update(b, lambda cur: t.cat(cur if t.kind(cur) == "list" else mk("mapseq", cur), t.lst(v)))
        return NONE

    def m_any_append(self, b, x, a, kw):
        return self.m_list_append(b, x, a, kw)

    def m_list_extend(self, b, x, a, kw):
        v = self.ip.as_list(a[0])
        self.ip.update(b, lambda cur: t.cat(cur if t.kind(cur) == "list" else mk("mapseq", cur), v))
        return NONE

    def m_any_extend(self, b, x, a, kw):
        return self.m_list_extend(b, x, a, kw)

    def m_list_pop(self, b, x, a, kw):
        ip = self.ip
        i = ip.fz(a[0]) if a else t.num(-1)
        if x.op == "list" and t.isint(i) and x.args:
            k = int(t.numval(i))
            L = list(x.args)
            v = L.pop(k)
            ip.update(b, lambda cur: t.lst(*L))
            return v
        if x.op == "list" and not x.args:
            ip.raise_(ip.exc("IndexError"))
        if x.op == "cat":
            v = t.at(x, i)
            ip.update(b, lambda cur: mk("ldel", cur, i))
            return v
        raise Undecided("list.pop")

    def m_list_insert(self, b, x, a, kw):
        ip = self.ip
        i = ip.fz(a[0])
        v = ip.alias(a[1])
        if i is ZERO:
            ip.update(b, lambda cur: t.cat(t.lst(v), cur if t.kind(cur) == "list" else mk("mapseq", cur)))
            return NONE
        if x.op == "list" and t.isint(i):
            L = list(x.args)
            L.insert(int(t.numval(i)), v)
            ip.update(b, lambda cur: t.lst(*L))
            return NONE
        raise Undecided("insert")

    def m_list_index(self, b, x, a, kw):
        ip = self.ip
        if x.op in ("list", "tuple"):
            k = ip.key(a[0])
            out = None
            for i in range(len(x.args) - 1, -1, -1):
                c = ip.eqv(k, x.args[i])
                if c is TRUE:
                    out = t.num(i)
                elif c is not FALSE:
                    out = t.ite(c, t.num(i), out if out is not None else mk("undef"))
            if out is not None:
                return out
            ip.raise_(ip.exc("ValueError"))
        return mk("meth", "index", ip.fz(x), ip.fz(a[0]))

    m_tuple_index = m_list_index

    def m_list_copy(self, b, x, a, kw):
        return x

    def m_dict_copy(self, b, x, a, kw):
        return x

    def m_list_sort(self, b, x, a, kw):
        v = self.b_sorted([b], kw)
        self.ip.update(b, lambda cur: v)
        return NONE

    def m_list_reverse(self, b, x, a, kw):
        v = self.b_reversed([b], kw)
        self.ip.update(b, lambda cur: v)
        return NONE

    def m_list_remove(self, b, x, a, kw):
        ip = self.ip
        if x.op == "list":
            k = ip.key(a[0])
            cs = [ip.eqv(k, y) for y in x.args]
            if all(c in (TRUE, FALSE) for c in cs):
                if TRUE not in cs:
                    ip.raise_(ip.exc("ValueError"))
                L = list(x.args)
                L.pop(cs.index(TRUE))
                ip.update(b, lambda cur: t.lst(*L))
                return NONE
        raise Undecided("remove")

    def m_list_count(self, b, x, a, kw):
        if x.op == "list":
            cs = [self.ip.eqv(self.ip.key(a[0]), y) for y in x.args]
            return t.add(ZERO, *[t.ite(c, ONE, ZERO) for c in cs])
        return None

    # sets
    def m_set_add(self, b, x, a, kw):
        v = self.ip.key(a[0])
        L = x.args[0]
        self.ip.update(b, lambda cur: self.mkset(t.cat(cur.args[0], t.lst(v))) if cur.op == "setof" else mk("setop", "add", cur, v))
        return NONE

    def m_set_update(self, b, x, a, kw):
        v = self.ip.as_list(a[0])
        self.ip.update(b, lambda cur: self.mkset(t.cat(cur.args[0], v)))
        return NONE

    def m_set_difference(self, b, x, a, kw):
        return self.setop("difference", x, self.ip.val(a[0]))

    def m_set_union(self, b, x, a, kw):
        return self.setop("union", x, self.ip.val(a[0]))

    def m_set_intersection(self, b, x, a, kw):
        return self.setop("intersection", x, self.ip.val(a[0]))

    # dicts
    def m_dict_get(self, b, x, a, kw):
        k = self.ip.key(a[0])
        d = a[1] if len(a) > 1 else kw.get("default", NONE)
        return t.dget(x, k, d)

    def m_any_get(self, b, x, a, kw):
        ip = self.ip
        if not a or len(a) > 2:
            return None
        k = ip.key(a[0])
        if k.op not in ("str", "scat", "attr", "fv", "bv", "at", "sym") and len(a) < 2:
            return None
        d = a[1] if len(a) > 1 else NONE
        c = ip.contains(k, x)
        return t.ite(c, t.at(x, k), d)

    def m_dict_keys(self, b, x, a, kw):
        return t.keys(x) if x.op == "dict" else mk("keys", x) if x.op != "ite" else t.keys(x)

    def m_dict_values(self, b, x, a, kw):
        return t.values(x)

    def m_dict_items(self, b, x, a, kw):
        return t.items(x)

    def m_any_keys(self, b, x, a, kw):
        return mk("keys", x) if not a else None

    def m_any_values(self, b, x, a, kw):
        return mk("values", x) if not a else None

    def m_any_items(self, b, x, a, kw):
        return mk("items", x) if not a else None

    def m_dict_update(self, b, x, a, kw):
        ip = self.ip
        others = list(a)
        if kw:
            d = mk("dict")
            for k, v in kw.items():
                if k == "**":
                    d = ip.dupdate(d, v)
                else:
                    d = t.dset(d, t.s(k), v)
            others.append(d)
        for o in others:
            ov = ip.val(o)
            if ov.op in ("zip", "flat", "list", "cat"):
                ov = self.b_dict([o], {})
            ip.update(b, lambda cur: ip.dupdate(cur, ov))
        return NONE

    def m_any_update(self, b, x, a, kw):
        return self.m_dict_update(b, x, a, kw)

    def m_dict_setdefault(self, b, x, a, kw):
        ip = self.ip
        k = ip.key(a[0])
        d = ip.alias(a[1]) if len(a) > 1 else NONE
        c = ip.contains(k, x)
        cur = t.dget(x, k, d)
        ip.update(b, lambda v: t.ite(c, v, t.dset(v, k, d)))
        return cur

    def m_dict_pop(self, b, x, a, kw):
        ip = self.ip
        k = ip.key(a[0])
        c = ip.contains(k, x)
        if len(a) > 1:
            r = t.dget(x, k, a[1])
            if c is FALSE:
                return r
            ip.update(b, lambda v: t.ite(c, ip.ddel(v, k), v))
            return r
        ip.raise_(ip.exc("KeyError"), t.not_(c))
        r = t.dget(x, k)
        ip.update(b, lambda v: ip.ddel(v, k))
        return r

    def m_any_pop(self, b, x, a, kw):
        ip = self.ip
        if not a:
            ip.update(b, lambda v: mk("ldel", v, t.num(-1)))
            return t.at(x, t.num(-1))
        k = ip.key(a[0])
        if len(a) > 1:
            c = ip.contains(k, x)
            ip.update(b, lambda v: mk("ddel", v, k))
            return t.ite(c, t.at(x, k), a[1])
        ip.update(b, lambda v: mk("ddel", v, k))
        return t.at(x, k)

    def m_any_setdefault(self, b, x, a, kw):
        return self.m_dict_setdefault(b, x, a, kw)

    # strings
    def m_str_format(self, b, x, a, kw):
        return self.format(x, a, kw)

    def m_str_join(self, b, x, a, kw):
        ip = self.ip
        L = ip.as_list(a[0])
        if L.op == "list":
            L = t.lst(*[ip.fz(e) for e in L.args])
        else:
            L = ip.fz(L)
        return t.join(x, L)

    def m_str_lower(self, b, x, a, kw):
        return t.s(x.args[0].lower()) if x.op == "str" else mk("meth", "lower", self.ip.fz(x))

    def m_str_upper(self, b, x, a, kw):
        return t.s(x.args[0].upper()) if x.op == "str" else mk("meth", "upper", self.ip.fz(x))

    def m_str_strip(self, b, x, a, kw):
        a = [self.ip.fz(y) for y in a]
        if x.op == "str" and all(y.op == "str" for y in a):
            return t.s(x.args[0].strip(*[y.args[0] for y in a]))

    def m_str_split(self, b, x, a, kw):
        a = [self.ip.fz(y) for y in a]
        if x.op == "str" and all(y.op in ("str", "num") for y in a):
            return t.lst(*[t.s(p) for p in x.args[0].split(*[y.args[0] if y.op == "str" else int(y.args[0]) for y in a])])

    def m_str_replace(self, b, x, a, kw):
        a = [self.ip.fz(y) for y in a]
        if x.op == "str" and all(y.op == "str" for y in a):
            return t.s(x.args[0].replace(*[y.args[0] for y in a]))

    def m_str_startswith(self, b, x, a, kw):
        return self.affix("startswith", x, a)

    def m_any_startswith(self, b, x, a, kw):
        return self.affix("startswith", x, a)

    def m_str_endswith(self, b, x, a, kw):
        return self.affix("endswith", x, a)

    def m_any_endswith(self, b, x, a, kw):
        return self.affix("endswith", x, a)

    def affix(self, nm, x, a):
        x = self.ip.fz(x)
        p = self.ip.fz(a[0])
        if p.op == "tuple":
            return t.or_(*[self.affix(nm, x, [q]) for q in p.args])
        if x.op == "str" and p.op == "str":
            return TRUE if getattr(x.args[0], nm)(p.args[0]) else FALSE
        if x.op == "scat" and p.op == "str":
            e = x.args[0] if nm == "startswith" else x.args[-1]
            if e.op == "str":
                y, q = e.args[0], p.args[0]
                if nm == "startswith":
                    if len(y) >= len(q):
                        return TRUE if y.startswith(q) else FALSE
                    if not q.startswith(y):
                        return FALSE
                else:
                    if len(y) >= len(q):
                        return TRUE if y.endswith(q) else FALSE
                    if not q.endswith(y):
                        return FALSE
        return mk("strpred", nm, x, p)

    def m_str_encode(self, b, x, a, kw):
        return mk("bytes", x.args[0].encode()) if x.op == "str" else x

    def m_str_isdigit(self, b, x, a, kw):
        return (TRUE if x.args[0].isdigit() else FALSE) if x.op == "str" else None

    # arrays
    def m_any_view(self, b, x, a, kw):
        ip = self.ip
        if a and a[0].op == "pv" and ip_pv(a[0]).__class__.__name__ == "Class":
            return ip.alloc("obj", x, {}, a[0])
        if a and a[0].op == "ref":
            return None
        return None

    def m_num_view(self, b, x, a, kw):
        return self.m_any_view(b, x, a, kw)

    def m_any_astype(self, b, x, a, kw):
        return self.astype(x, a[0])

    m_num_astype = m_any_astype

    def astype(self, x, d):
        ip = self.ip
        d = ip.fz(d)
        if self.isfloat(d):
            return x
        nm = self.dtname(d)
        if nm.op == "str" and nm.args[0] in ("int", "int64", "int32", "intp", "i8", "i4", "bool", "bool_"):
            v = self.lits.of(x) if x.op in ("array", "zeros", "ones", "eye", "num", "true", "false") else None
            v = Lit((), [x]) if v is None and x.op in ("num", "true", "false") else v
            if v is not None and all(e.op in ("num", "true", "false") for e in v.flat):
                if nm.args[0].startswith("bool"):
                    return Lit(v.dims, [t.truth(e) for e in v.flat]).term()
                return Lit(v.dims, [ONE if e is TRUE else ZERO if e is FALSE else t.num(int(t.numval(e))) for e in v.flat]).term()
            if v is not None and not nm.args[0].startswith("bool") and all(e.op == "str" for e in v.flat):
                try:
                    return Lit(v.dims, [t.num(int(e.args[0])) for e in v.flat]).term()
                except ValueError:
                    pass
        if nm.op == "str" and nm.args[0] in ("U", "str", "<U", "str_"):
            v = self.lits.of(x) if x.op == "array" else None
            if v is not None and all(e.op == "str" for e in v.flat):
                return x
        if nm.op == "str" and re.fullmatch(r"[<>=]?U\d+", nm.args[0]):
            v = self.lits.of(x) if x.op == "array" else None
            if v is not None and all(e.op == "str" for e in v.flat):
                n = int(nm.args[0].lstrip("<>=")[1:])
                return Lit(v.dims, [t.s(e.args[0][:n]) for e in v.flat]).term()
        return mk("call", "np.astype", x, nm)

    def sizeof(self, f):
        v = self.lits.of(f) if f.op in ("array", "zeros", "ones", "eye", "diag") else None
        if v is not None:
            return t.num(len(v.flat))
        sh = self.shape(f)
        if sh.op == "tuple" and sh.args and all(t.isint(k) for k in sh.args):
            return t.mul(ONE, *sh.args)
        return mk("attr", f, "size")

    def dtname(self, d):
        if d.op in ("bi",):
            return t.s(d.args[0])
        if d.op == "ext":
            return t.s(d.args[0].split(".")[-1])
        return d

    def isfloat(self, d):
        return (d.op == "str" and d.args[0] in FLOATS) or (d.op == "bi" and d.args[0] == "float") or (
            d.op == "ext" and d.args[0] in ("np.float64", "np.double", "np.float_", "np.float"))

    def m_any_reshape(self, b, x, a, kw):
        ip = self.ip
        a = [ip.fz(y) for y in a]
        sh = a[0] if len(a) == 1 and a[0].op in ("tuple", "list", "shape") else t.tup(*a)
        return self.reshape(x, sh)

    m_num_reshape = m_any_reshape

    def reshape(self, x, sh):
        if x.op == "ite":
            return t.ite(x.args[0], self.reshape(x.args[1], sh), self.reshape(x.args[2], sh))
        if sh.op == "tuple" and self.shape(x) is sh:
            return x
        if sh.op == "list":
            sh = t.tup(*sh.args)
        elif sh.op == "num":
            sh = t.tup(sh)
        v = self.lits.of(x) if x.op in ("array", "zeros", "ones", "eye") else None
        if v is not None and sh.op == "tuple" and all(t.isint(k) for k in sh.args):
            d = [int(t.numval(k)) for k in sh.args]
            if d.count(-1) == 1:
                m = 1
                for k in d:
                    m *= abs(k)
                if m and len(v.flat) % m == 0:
                    d[d.index(-1)] = len(v.flat) // m
            m = 1
            for k in d:
                m *= k
            if m == len(v.flat) and min(d + [1]) >= 0 and d:
                from .lit import Lit
                return Lit(d, v.flat).term()
        return mk("call", "np.reshape", x, sh)

    def m_any_logdet(self, b, x, a, kw):
        if x.op == "cho":
            return self.logdet(x.args[0])

    def m_any_inv(self, b, x, a, kw):
        if x.op == "cho":
            return self.inv(x.args[0])

    def m_any_cholesky_inplace(self, b, x, a, kw):
        ip = self.ip
        if x.op == "cho":
            A = ip.fz(a[0])
            self.factored(A, "CholmodError")
            ip.update(b, lambda cur: mk("cho", A))
            return NONE

    def m_any_pinv(self, b, x, a, kw):
        return None

    def m_any_insert(self, b, x, a, kw):
        if len(a) == 2 and self.ip.fz(a[0]) is ZERO:
            return self.m_list_insert(b, x, a, kw)

    def m_any_fill(self, b, x, a, kw):
        v = self.ip.fz(a[0])
        self.ip.update(b, lambda cur: t.mul(v, mk("ones", self.shape(self.ip.fz(cur)))))
        return NONE

    def m_any_sort(self, b, x, a, kw):
        self.ip.update(b, lambda cur: mk("call", "np.sort", self.ip.fz(cur)))
        return NONE

    def m_any_tolist(self, b, x, a, kw):
        if x.op == "array":
            return x.args[0]
        return mk("mapseq", x)


def ip_pv(x):
    from .interp import PV
    return PV.get(x.args[0]) if x is not None and x.op == "pv" else None


# -------------------------------------------------------------------- external functions with laws
EXTF = {}


def ef(*names):
    def deco(f):
        for n in names:
            EXTF[n] = f
        return f
    return deco


def _un(name, fn):
    def g(self, args, kw):
        if len(args) != 1 or kw:
            return None
        x = self.ip.fz(args[0])
        if x.op in ("array", "zeros", "ones"):
            r = self.lits.map(x, fn)
            if r is not None:
                return r
        return fn(x)
    EXTF[name] = g


_un("np.sqrt", lambda x: t.pow_(x, t.HALF))
_un("np.exp", t.exp)
_un("np.log", t.log)
_un("np.log10", t.log10)
_un("np.log2", lambda x: t.div(t.log(x), t.log(t.num(2))))
_un("np.log1p", lambda x: t.log(t.add(x, ONE)))
_un("np.expm1", lambda x: t.sub(t.exp(x), ONE))
_un("np.abs", t.abs_)
_un("np.square", lambda x: t.mul(x, x))
_un("np.cbrt", lambda x: t.pow_(x, t.num(Fraction(1, 3))))
_un("np.reciprocal", lambda x: t.pow_(x, t.num(-1)))
_un("np.negative", t.neg)
_un("np.positive", lambda x: x)
_un("np.double", lambda x: x)
_un("np.float64", lambda x: x)
_un("np.deg2rad", lambda x: t.mul(x, t.PI, t.num(Fraction(1, 180))))
_un("np.rad2deg", lambda x: t.div(t.mul(x, t.num(180)), t.PI))
for _n in ("sin", "cos", "tan", "arctan", "arcsin"):
    _un("np." + _n, (lambda n: lambda x: t.trig(n, x))(_n))
_un("np.arccos", lambda x: mk("arccos", x))
_un("np.sinh", lambda x: mk("sinh", x))
_un("np.cosh", lambda x: mk("cosh", x))
_un("np.tanh", lambda x: mk("tanh", x))




def _infside(x):
    """+1/-1 for an infinite constant, 0 for a finite one, None otherwise"""
    if x.op == "num":
        return 0
    c, p = t.coef_split(x)
    return (1 if c > 0 else -1) if p.op == "sym" and p.args[0] == "inf" and c != 0 else None


def _isf(name, val):
    def f(x):
        k = _infside(x)
        if x.op == "ite":
            return t.ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if x.op in ("true", "false"):
            k = 0
        return mk("call", name, x) if k is None else (TRUE if val(k) else FALSE)
    return f


_un("np.isfinite", _isf("np.isfinite", lambda k: k == 0))
_un("np.isinf", _isf("np.isinf", lambda k: k != 0))
_un("np.isneginf", _isf("np.isneginf", lambda k: k < 0))


def _n2n(x):
    k = _infside(x)
    if x.op == "ite":
        return t.ite(x.args[0], _n2n(x.args[1]), _n2n(x.args[2]))
    return mk("call", "np.nan_to_num", x) if k is None else x if k == 0 else t.num(k * Fraction(1.7976931348623157e308))


_un("np.nan_to_num", _n2n)


def _bin(name, fn):
    def g(self, args, kw):
        if len(args) != 2 or kw:
            return None
        if name not in ("np.dot", "np.vdot", "np.inner", "np.outer"):
            x, y = self.ip.fz(args[0]), self.ip.fz(args[1])
            r = self.lits.zip(x, y, lambda p, q: fn(self, p, q))
            if r is not None:
                return r
        return fn(self, args[0], args[1])
    EXTF[name] = g


_bin("np.power", lambda s, a, b: t.pow_(s.ip.fz(a), s.ip.fz(b)))
_bin("np.add", lambda s, a, b: s.ip.arith("Add", s.ip.fz(a), s.ip.fz(b)))
_bin("np.subtract", lambda s, a, b: t.sub(s.ip.fz(a), s.ip.fz(b)))
_bin("np.multiply", lambda s, a, b: t.mul(s.ip.fz(a), s.ip.fz(b)))
_bin("np.true_divide", lambda s, a, b: t.div(s.ip.fz(a), s.ip.fz(b)))
_bin("np.hypot", lambda s, a, b: t.pow_(t.add(t.pow_(s.ip.fz(a), t.num(2)), t.pow_(s.ip.fz(b), t.num(2))), t.HALF))
def _dot2(s, a, b):
    a, b = s.ip.fz(a), s.ip.fz(b)
    if a.op in ("array", "zeros", "ones", "diag") and b.op in ("array", "zeros", "ones", "diag"):
        va, vb = s.lits.of(a), s.lits.of(b)
        if va is not None and vb is not None and va.nd and vb.nd and va.dims[-1] != vb.dims[-2 if vb.nd > 1 else 0]:
            s.ip.raise_(s.ip.exc("ValueError"))
    return s.dot(a, b)


_bin("np.dot", _dot2)
_bin("np.vdot", lambda s, a, b: s.dot(s.ip.fz(a), s.ip.fz(b)))
_bin("np.inner", lambda s, a, b: s.dot(s.ip.fz(a), s.ip.fz(b)))
_bin("np.logical_and", lambda s, a, b: t.and_(s.ip.as_bool(s.ip.fz(a)), s.ip.as_bool(s.ip.fz(b))))
_bin("np.logical_or", lambda s, a, b: t.or_(s.ip.as_bool(s.ip.fz(a)), s.ip.as_bool(s.ip.fz(b))))
_bin("np.greater", lambda s, a, b: t.lt(s.ip.fz(b), s.ip.fz(a)))
_bin("np.less", lambda s, a, b: t.lt(s.ip.fz(a), s.ip.fz(b)))
_bin("np.greater_equal", lambda s, a, b: t.le(s.ip.fz(b), s.ip.fz(a)))
_bin("np.less_equal", lambda s, a, b: t.le(s.ip.fz(a), s.ip.fz(b)))
_bin("np.equal", lambda s, a, b: t.eq(s.ip.fz(a), s.ip.fz(b)))
_bin("np.not_equal", lambda s, a, b: t.not_(t.eq(s.ip.fz(a), s.ip.fz(b))))
_un("np.logical_not", lambda x: t.not_(x if t.is_bool(x) else mk("truth", x)))


@ef("np.where")
def _where(self, a, kw):
    ip = self.ip
    if len(a) == 3:
        c = ip.fz(a[0])
        if not self.condnd(c):
            return mk("call", "np.where", c, ip.fz(a[1]), ip.fz(a[2]))
        return t.ite(c if t.is_bool(c) else mk("truth", c), ip.fz(a[1]), ip.fz(a[2]))
    return _nonzero(self, a, kw)


@ef("np.nonzero")
def _nonzero(self, a, kw):
    x = self.ip.fz(a[0])
    v = self.lits.of(x)
    if v is not None and v.nd == 1:
        cs = [t.truth(e) for e in v.flat]
        if all(c in (TRUE, FALSE) for c in cs):
            return t.tup(mk("array", t.lst(*[t.num(i) for i, c in enumerate(cs) if c is TRUE])))
    return mk("call", "np.nonzero", x)


@ef("np.flatnonzero")
def _flatnonzero(self, a, kw):
    x = self.ip.fz(a[0])
    if self.ndim(x) is ONE:
        return t.at(_nonzero(self, a, kw), ZERO)


@ef("np.ix_")
def _ix(self, a, kw):
    out = []
    for x in a:
        x = self.ip.fz(x)
        v = self.lits.of(x if x.op != "list" else mk("array", x))
        if v is not None and v.flat and all(c in (TRUE, FALSE) for c in v.flat):
            v = lit.Lit((sum(c is TRUE for c in v.flat),), [t.num(i) for i, c in enumerate(v.flat) if c is TRUE])
        out.append(v.term() if v is not None else x)
    return mk("call", "np.ix_", *out)


@ef("np.prod")
def _nprod(self, a, kw):
    if len(a) == 1 and not kw:
        x = self.ip.fz(a[0])
        if x.op in ("num", "mono", "poly", "log", "pow", "exp", "call") and self.ndim(x) is ZERO:
            return x


@ef("np.sum")
def _sum(self, a, kw):
    if len(a) == 1 and not kw:
        ip = self.ip
        L = a[0]
        v = ip.val(L)
        if v.op in ("list", "tuple", "cat", "flat") or (v.op == "ite" and t.kind(v) in ("list",)):
            segs = ip.segments(L)
            if segs is not None:
                out = []
                for g, e in segs:
                    x = self.npsum(ip.fz(e))
                    out.append(x if g is None else t.ite(g, x, ZERO))
                return t.add(ZERO, *out)
        return self.npsum(ip.fz(L))
    if len(a) == 2 and not kw or len(a) == 1 and set(kw) == {"axis"}:
        ip = self.ip
        x = ip.fz(a[0])
        ax = ip.fz(a[1] if len(a) == 2 else kw["axis"])
        if ax is NONE:
            return self.npsum(x)
        if not t.isint(ax):
            return None
        k = int(t.numval(ax))
        L = self.lits.of(x)
        if L is not None and L.nd >= 1:
            k = k + L.nd if k < 0 else k
            if not 0 <= k < L.nd:
                ip.raise_(ip.exc("AxisError"))
            if L.nd == 1:
                return t.add(ZERO, *L.flat)
            rd = L.dims[:k] + L.dims[k + 1:]
            out = []
            for q in itertools.product(*[range(m) for m in rd]):
                out.append(t.add(ZERO, *[L.get(q[:k] + (j,) + q[k:]) for j in range(L.dims[k])]))
            return Lit(rd, out).term()
        if k == 0:
            r = _rows(self, x)
            if r is not None:
                return t.add(ZERO, *r)


def _rows(self, x):
    """entries along the first axis of an elementwise expression of arrays given row by row"""
    if x.op == "array" and x.args[0].op == "list" and x.args[0].args:
        rs = x.args[0].args
        sh = {self.shape(r) for r in rs}
        return rs if len(sh) == 1 and sh.pop().op in ("tuple", "shape") else None
    if x.op not in ("mono", "poly"):
        return None
    tot = None
    rowshape = None
    for key, c in t._monos(x).items():
        n, prod = None, None
        for at, e in key:
            if self.scalarish(at):
                r = None
            else:
                r = _rows(self, at)
                if r is None or n is not None and len(r) != n:
                    return None
                s = self.shape(r[0])
                if rowshape is not None and s is not rowshape:
                    return None
                rowshape = s
                n = len(r)
            v = [t.pow_(at, e)] if r is None else [t.pow_(q, e) for q in r]
            if prod is None:
                prod = v
            else:
                m = max(len(prod), len(v))
                prod = [t.mul(prod[i if len(prod) > 1 else 0], v[i if len(v) > 1 else 0]) for i in range(m)]
        if n is None or len(prod) != n:
            return None
        prod = [t.mul(t.num(c), q) for q in prod]
        if tot is not None and len(tot) != n:
            return None
        tot = prod if tot is None else [t.add(p, q) for p, q in zip(tot, prod)]
    return tot


@ef("np.meshgrid")
def _meshgrid(self, a, kw):
    if len(a) != 2 or kw:
        return None
    ip = self.ip
    L = [self.lits.of(ip.fz(x)) for x in a]
    if all(v is not None and v.nd == 1 for v in L):
        n, m = L[1].dims[0], L[0].dims[0]
        if n * m <= 400:
            return t.lst(ip.box(Lit((n, m), list(L[0].flat) * n).term()), ip.box(Lit((n, m), [v for v in L[1].flat for _ in range(m)]).term()))


@ef("np.einsum")
def _einsum(self, a, kw):
    ip = self.ip
    if kw or not a or ip.fz(a[0]).op != "str":
        return None
    spec = ip.fz(a[0]).args[0].replace(" ", "")
    ops = [ip.fz(x) for x in a[1:]]
    if spec in ("i->", "i", "ij->"):
        if spec.endswith("->"):
            return self.npsum(ops[0])
    if spec in ("i,i->", "i,i", "ij,j->i", "ij,jk->ik", "ij,jk", "i,ij->j", "ij,j"):
        return self.dot(ops[0], ops[1])
    if spec in ("i,j->ij",):
        return self.outer(ops[0], ops[1])
    r = _litsum(self, spec, ops)
    if r is not None:
        return r
    # canonical letters
    m = {}
    out = ""
    for ch in spec:
        if ch.isalpha():
            m.setdefault(ch, chr(ord("a") + len(m)))
            out += m[ch]
        else:
            out += ch
    return mk("call", "np.einsum", t.s(out), *ops)


def _litsum(self, spec, ops):
    """Einstein sum of literal arrays"""
    if "->" not in spec or "." in spec:
        return None
    ins, out = spec.split("->")
    ins = ins.split(",")
    vs = [self.lits.of(x if x.op != "list" else mk("array", x)) for x in ops]
    if len(ins) != len(vs) or any(v is None or v.nd != len(k) for v, k in zip(vs, ins)):
        return None
    dims = {}
    for v, k in zip(vs, ins):
        for n, ch in zip(v.dims, k):
            if dims.setdefault(ch, n) != n:
                return None
    if any(ch not in dims for ch in out) or len(set(out)) != len(out):
        return None
    summed = [ch for ch in dims if ch not in out]
    k = 1
    for n in dims.values():
        k *= n
    if k > 1024:
        return None

    def cells(chs):
        pos = [()]
        for ch in chs:
            pos = [p + (i,) for p in pos for i in range(dims[ch])]
        return pos
    fl = []
    for o in cells(out):
        env = dict(zip(out, o))
        acc = []
        for u in cells(summed):
            env.update(zip(summed, u))
            acc.append(t.mul(*[v.get(tuple(env[ch] for ch in kk)) for v, kk in zip(vs, ins)]))
        fl.append(t.add(ZERO, *acc))
    return lit.Lit([dims[ch] for ch in out], fl).term()


def _outer(self, a, b):
    a = a.args[0] if a.op == "T" else a
    b = b.args[0] if b.op == "T" else b
    r = _litouter(self, a, b)
    return r if r is not None else mk("call", "np.outer", a, b)


def _litouter(self, a, b):
    if a.op == "array" or b.op == "array":
        u, v = self.lits.of(a), self.lits.of(b)
        if u is not None and v is not None and u.nd == v.nd == 1 and u.dims[0] * v.dims[0] <= 256:
            return lit.Lit(u.dims + v.dims, [t.mul(p, q) for p in u.flat for q in v.flat]).term()
    return None


@ef("np.tensordot")
def _tensordot(self, a, kw):
    """contraction of two literal arrays over given axes"""
    ip = self.ip
    if kw or len(a) != 3:
        return None
    x, y, ax = (ip.fz(v) for v in a)
    u, v = (self.lits.of(k) if k.op == "array" else None for k in (x, y))
    if u is None or v is None:
        return None
    if t.isint(ax):
        n = int(t.numval(ax))
        p, q = list(range(u.nd - n, u.nd)), list(range(n))
    elif ax.op in ("tuple", "list") and len(ax.args) == 2:
        pq = []
        for k in ax.args:
            ks = k.args if k.op in ("tuple", "list") else (k,)
            if not all(t.isint(z) for z in ks):
                return None
            pq.append([int(t.numval(z)) for z in ks])
        p, q = [z % u.nd for z in pq[0]], [z % v.nd for z in pq[1]]
    else:
        return None
    if len(p) != len(q) or max(u.nd, v.nd) > 4:
        return None
    la = list("abcd"[:u.nd])
    lb = list("ABCD"[:v.nd])
    for i, j in zip(p, q):
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in p] + [c for j, c in enumerate(lb) if j not in q]
    return _litsum(self, "".join(la) + "," + "".join(lb) + "->" + "".join(out), [x, y])


Ext.outer = _outer
_bin("np.outer", lambda s, a, b: s.outer(s.ip.fz(a), s.ip.fz(b)))


@ef("np.array")
def _nparray(self, a, kw):
    own = self.ip.fz(kw.pop("copy")) is not FALSE if "copy" in kw else True
    r = _array(self, a, kw)
    return self.fresh(r) if own else r


@ef("np.asarray")
def _array(self, a, kw):
    ip = self.ip
    if len(a) > 1:
        d = ip.fz(a[1])
        r = _array(self, a[:1], {})
        return r if self.isfloat(d) or d is NONE else self.astype(r, d)
    if "dtype" in kw:
        d = ip.fz(kw["dtype"])
        r = _array(self, a[:1], {})
        return r if self.isfloat(d) or d is NONE else self.astype(r, d)
    x = ip.val(a[0])
    if ip.isobj(a[0]):
        return ip.fz(a[0])
    if x.op == "ite":
        return t.ite(x.args[0], _array(self, [x.args[1]], {}), _array(self, [x.args[2]], {}))
    f = ip.fz(x)
    if t.kind(f) in ("list",) or f.op in ("tuple",):
        if f.op == "mapseq":
            return f.args[0]
        r = mk("array", f if f.op != "tuple" else t.lst(*f.args))
        v = self.lits.of(r)
        return v.term() if v is not None and v.nd > 1 else r
    return f


@ef("np.asfarray", "np.atleast_1d")
def _at1d(self, a, kw):
    f = self.ip.fz(a[0])
    if t.kind(f) == "list":
        return mk("array", f)
    n = self.ndim(f)
    if t.isint(n) and t.numval(n) >= 1:
        return f
    return mk("call", "np.atleast_1d", f)


@ef("np.zeros", "np.empty")
def _zeros(self, a, kw):
    ip = self.ip
    dt = ip.fz(a[1]) if len(a) > 1 else (ip.fz(kw["dtype"]) if "dtype" in kw else t.s("d"))
    sh = ip.fz(a[0])
    if sh.op in ("list", "tuple") and len(sh.args) == 1:
        sh = sh.args[0]
    if sh.op == "list":
        sh = t.tup(*sh.args)
    r = _rec(self, sh, dt)
    if r is not None:
        return r
    k = _dtkind(self, dt)
    if k:
        d = self.lits.dimsof(sh)
        if d is not None:
            n = 1
            for m in d:
                n *= m
            r = Lit(tuple(d), [FALSE if k == "bool" else t.s("")] * n).term()
            w = _dtwidth(self, dt) if k == "str" else None
            return ip.alloc("val", r, {"_U": t.num(w)}) if w else r
        if k == "str":
            return mk("zeros", "str", sh)
    return mk("zeros", "d" if self.isfloat(dt) else t.show(self.dtname(dt)), sh)


def _dtkind(self, dt):
    if dt.op == "attr" and dt.args[1] in ("dtype", t.s("dtype")) or dt.op == "call" and dt.args[0] == "dtype":
        x = dt.args[0] if dt.op == "attr" else dt.args[1]
        v = self.lits.of(x) if x.op == "array" else None
        if v is not None and v.flat and all(e.op == "str" for e in v.flat):
            return "str"
        return None
    if dt.op == "call" and dt.args[0] in ("builtins.max", "pymax") or dt.op == "pymax":
        xs = [x for x in dt.args if not isinstance(x, str)]
        return "str" if xs and all(_dtkind(self, x) == "str" for x in xs) else None
    nm = self.dtname(dt)
    if nm.op == "str":
        if nm.args[0] in ("bool", "bool_", "?"):
            return "bool"
        if nm.args[0].lstrip("<>=|")[:1] in ("U", "S") or nm.args[0] in ("str", "str_"):
            return "str"
    return None


def _dtwidth(self, dt):
    """number of characters that the elements of a string array hold"""
    if dt.op == "attr" and dt.args[1] in ("dtype", t.s("dtype")) or dt.op == "call" and dt.args[0] == "dtype":
        x = dt.args[0] if dt.op == "attr" else dt.args[1]
        v = self.lits.of(x) if x.op == "array" else None
        return max([1] + [len(e.args[0]) for e in v.flat]) if v is not None and all(e.op == "str" for e in v.flat) else None
    if dt.op == "call" and dt.args[0] in ("builtins.max", "pymax") or dt.op == "pymax":
        xs = [_dtwidth(self, x) for x in dt.args if not isinstance(x, str)]
        return max(xs) if xs and None not in xs else None
    nm = self.dtname(dt)
    if nm.op == "str":
        m = nm.args[0].lstrip("<>=|")
        if m[:1] in ("U", "S") and m[1:].isdigit():
            return int(m[1:])


def _rec(self, sh, dt):
    """structured array: one column per field"""
    if dt.op == "list" and dt.args and all(x.op == "tuple" and len(x.args) == 2 and x.args[0].op == "str" for x in dt.args):
        if sh.op == "tuple" and len(sh.args) == 1:
            sh = sh.args[0]
        d = []
        for x in dt.args:
            d += [x.args[0], mk("zeros", "d" if self.isfloat(x.args[1]) else t.show(self.dtname(x.args[1])), sh)]
        return mk("rec", sh, mk("dict", *d))


@ef("np.ones")
def _ones(self, a, kw):
    ip = self.ip
    dt = ip.fz(a[1]) if len(a) > 1 else (ip.fz(kw["dtype"]) if "dtype" in kw else t.s("d"))
    sh = ip.fz(a[0])
    if sh.op in ("list", "tuple") and len(sh.args) == 1:
        sh = sh.args[0]
    if sh.op == "list":
        sh = t.tup(*sh.args)
    r = mk("ones", sh)
    if _dtkind(self, dt) == "bool":
        d = self.lits.dimsof(sh)
        if d is not None:
            v = self.lits.of(r)
            return Lit(v.dims, [TRUE] * len(v.flat)).term()
    return r if self.isfloat(dt) else mk("call", "np.astype", r, self.dtname(dt))


@ef("np.full")
def _full(self, a, kw):
    if len(a) == 2:
        return t.mul(self.ip.fz(a[1]), _ones(self, a[:1], {}))


@ef("np.zeros_like", "np.empty_like")
def _zl(self, a, kw):
    f = self.ip.fz(a[0])
    if _number(self, f):
        return ZERO
    return mk("zeros", "d", _onedim(self.shape(f)))


@ef("np.ones_like")
def _ol(self, a, kw):
    f = self.ip.fz(a[0])
    if _number(self, f) and len(a) == 1 and not kw:
        return ONE
    r = mk("ones", _onedim(self.shape(f)))
    dt = self.ip.fz(a[1]) if len(a) > 1 else (self.ip.fz(kw["dtype"]) if "dtype" in kw else None)
    if dt is not None and ((dt.op == "bi" and dt.args[0] == "bool") or dt in (t.s("bool"), t.s("?"))):
        v = self.lits.of(r)
        if v is not None:
            return self.lits.map(r, lambda e: TRUE)
    return r


@ef("np.full_like")
def _fl(self, a, kw):
    f = self.ip.fz(a[0])
    if _number(self, f):
        return self.ip.fz(a[1])
    return t.mul(self.ip.fz(a[1]), mk("ones", _onedim(self.shape(f))))


def _number(self, f):
    return f.op in ("num", "len") or f.op == "at" and f.args[0].op == "shape" and f.args[1].op == "num" or self.ndim(f) is ZERO


def _onedim(sh):
    return sh.args[0] if sh.op == "tuple" and len(sh.args) == 1 else sh


def _nminmax(nm):
    def g(self, a, kw):
        x = self.ip.fz(a[0])
        v = self.lits.of(x) if x.op == "array" and len(a) == 1 and not kw else None
        if v is not None and v.flat and all(t.isnum(e) for e in v.flat):
            return self.minmax(nm, list(v.flat), {})
    return g


ef("np.max")(_nminmax("max"))
ef("np.min")(_nminmax("min"))


@ef("np.argsort")
def _argsort(self, a, kw):
    """positions of the sorted elements of a literal vector of distinct numbers"""
    x = self.ip.fz(a[0])
    v = self.lits.of(x if x.op == "array" else mk("array", x)) if x.op in ("array", "list") else None
    if v is None or v.nd != 1 or not v.flat or not all(t.isnum(e) for e in v.flat):
        return None
    vals = [t.numval(e) for e in v.flat]
    kind = self.ip.fz(kw["kind"]) if "kind" in kw else None
    if len(set(vals)) < len(vals) and not (kind is not None and kind.op == "str" and kind.args[0] in ("stable", "mergesort")):
        return None
    return mk("array", t.lst(*[t.num(i) for i in sorted(range(len(vals)), key=lambda i: vals[i])]))


@ef("np.eye")
def _eye(self, a, kw):
    if len(a) == 1 and not kw:
        return mk("eye", self.ip.fz(a[0]))


@ef("np.diag")
def _diag(self, a, kw):
    if len(a) == 1 and not kw:
        return self.diag(self.ip.fz(a[0]))


def _ediag(self, x):
    if x.op == "ite":
        return t.ite(x.args[0], self.diag(x.args[1]), self.diag(x.args[2]))
    if x.op == "diag" and x.args[0].op in ("call", "list", "array"):
        return x.args[0]
    if x.op in ("list", "tuple"):
        x = mk("array", t.lst(*x.args))
    v = self.lits.of(x) if x.op in ("array", "zeros", "ones", "eye") else None
    if v is not None and v.nd == 2:
        return lit.Lit((min(v.dims),), [v.get((i, i)) for i in range(min(v.dims))]).term()
    c, p = t.coef_split(x)
    if c != 1:
        return t.mul(t.num(c), self.diag(p))
    return mk("diag", p)


Ext.diag = _ediag


@ef("np.ndim")
def _ndim(self, a, kw):
    ip = self.ip
    if ip.isobj(a[0]):
        return ip.getattr(a[0], "ndim")
    return self.ndim(ip.fz(a[0]))


@ef("np.shape")
def _shape(self, a, kw):
    return self.shape(self.ip.fz(a[0]))


@ef("np.size")
def _size(self, a, kw):
    return self.sizeof(self.ip.fz(a[0]))


@ef("np.any")
def _any(self, a, kw):
    if len(a) == 1 and not kw:
        return self.anyall(a[0], True)


@ef("np.all")
def _all(self, a, kw):
    if len(a) == 1 and not kw:
        return self.anyall(a[0], False)


@ef("np.unique", "np.sort", "np.sorted")
def _unique(self, a, kw):
    if len(a) != 1 or kw:
        return None
    x = self.ip.fz(a[0])
    if x.op == "array":
        x = x.args[0]
    if x.op == "list" and x.args and all(e.op == "str" for e in x.args):
        vs = [e.args[0] for e in x.args]
        vs = sorted(set(vs)) if self.cur == "np.unique" else sorted(vs)
        return mk("array", t.lst(*[t.s(v) for v in vs]))
    if x.op == "list" and all(e.op == "num" and t.numval(e).denominator >= 1 for e in x.args):
        vs = [t.numval(e) for e in x.args]
        vs = sorted(set(vs)) if self.cur == "np.unique" else sorted(vs)
        return mk("array", t.lst(*[t.num(v) for v in vs]))


@ef("np.transpose")
def _transp(self, a, kw):
    if len(a) == 1 and not kw:
        return self.tr(self.ip.fz(a[0]))


@ef("np.copy", "copy.copy", "copy.deepcopy")
def _copy(self, a, kw):
    ip = self.ip
    if ip.isobj(a[0]):
        c = ip.cell(a[0])
        return ip.alloc("obj", c.val, dict(c.attrs), c.cls)
    v = ip.val(a[0])
    return v if t.kind(v) in ("list", "dict") else self.fresh(ip.fz(v))


def vecelems(self, x, lim=24):
    """elements of a short one-dimensional array of known length, or None"""
    if x.op == "array" and x.args[0].op == "list" and len(x.args[0].args) <= lim:
        es = x.args[0].args
        return list(es) if all(self.ndim(e) is ZERO for e in es) else None
    if x.op in ("ones", "zeros") and x.args and (t.isint(x.args[-1]) or (x.args[-1].op == "tuple" and len(x.args[-1].args) == 1 and t.isint(x.args[-1].args[0]))):
        k = x.args[-1] if x.args[-1].op != "tuple" else x.args[-1].args[0]
        k = int(t.numval(k))
        return [ONE if x.op == "ones" else ZERO] * k if k <= lim else None
    if x.op in ("mono", "poly"):
        tot = None
        for key, c in t._monos(x).items():
            vec, sc = None, t.num(c)
            for f, e in key:
                if self.ndim(f) is ZERO:
                    sc = t.mul(sc, t.pow_(f, e))
                    continue
                v = vecelems(self, f, lim)
                if v is None or (vec is not None and len(vec) != len(v)):
                    return None
                v = [t.pow_(k, e) for k in v]
                vec = v if vec is None else [t.mul(p, q) for p, q in zip(vec, v)]
            vec = [sc] if vec is None else [t.mul(sc, v) for v in vec]
            if tot is None:
                tot = vec
            elif len(tot) == len(vec) or len(vec) == 1:
                tot = [t.add(p, q) for p, q in zip(tot, vec * len(tot))]
            elif len(tot) == 1:
                tot = [t.add(p, q) for p, q in zip(tot * len(vec), vec)]
            else:
                return None
        return tot if tot is not None and any(self.ndim(f) is ONE for key in t._monos(x) for f, e in key) else None
    return None


@ef("np.concatenate")
def _conc(self, a, kw):
    return _conc2(self, a, kw, "np.concatenate")


@ef("np.hstack")
def _hconc(self, a, kw):
    ip = self.ip
    if len(a) == 1 and not kw:
        L = ip.fz(ip.as_list(a[0]))
        if L.op == "list" and L.args and all(self.ndim(x) is ONE for x in L.args):
            return _conc2(self, a, kw, "np.concatenate")
    return _conc2(self, a, kw, "np.hstack")


@ef("np.vstack", "np.column_stack", "np.stack")
def _stack(self, a, kw):
    if len(a) != 1 or kw:
        return None
    L = self.ip.fz(self.ip.as_list(a[0]))
    if L.op != "list" or not L.args:
        return None
    vs = [self.lits.of(x) if x.op != "list" else self.lits.nested(x) for x in L.args]
    if any(v is None for v in vs):
        return None
    if self.cur == "np.stack":
        return mk("array", t.lst(*[v.nest(v.dims, v.flat) for v in vs])) if len({v.dims for v in vs}) == 1 and vs[0].nd else None
    ax = 1 if self.cur == "np.column_stack" else 0
    vs = [lit.Lit((v.dims[0], 1) if ax else (1, v.dims[0]), v.flat) if v.nd == 1 else v for v in vs]
    r = self.lits.concat(vs, ax)
    return r.term() if r is not None else None


def _conc2(self, a, kw, fname):
    ip = self.ip
    axis = 0
    if "axis" in kw and t.isint(ip.fz(kw["axis"])):
        axis = int(t.numval(ip.fz(kw["axis"])))
    if len(a) == 1 and set(kw) <= {"axis"} and axis in (0, 1):
        L = ip.fz(ip.as_list(a[0]))
        if L.op == "list" and L.args:
            if len(L.args) == 1 and fname == "np.concatenate" and self.ndim(L.args[0]) is ONE:
                return L.args[0]
            if fname == "np.concatenate" and any(x is NONE or x.op in ("num", "str", "true", "false") for x in L.args):
                ip.raise_(ip.exc("ValueError"))
            vs = [self.lits.nested(t.lst(*x.args)) if x.op in ("list", "tuple") else self.lits.of(x) for x in L.args]
            if fname == "np.concatenate" and all(v is not None for v in vs) and (len({v.nd for v in vs}) > 1 or any(v.nd == 2 and v.dims[1 - axis] != vs[0].dims[1 - axis] for v in vs)):
                ip.raise_(ip.exc("ValueError"))
            if all(v is not None for v in vs):
                r = self.lits.concat(vs, 1 if fname == "np.hstack" and vs[0].nd > 1 else axis)
                if r is not None:
                    return r.term()
    if len(a) == 1 and not kw:
        L = ip.fz(ip.as_list(a[0]))
        if L.op == "list" and L.args:
            es = [[x] if fname == "np.hstack" and self.lits.scalar(x) else vecelems(self, x) for x in L.args]
            if all(e is not None for e in es):
                return mk("array", t.lst(*[x for e in es for x in e]))
    if len(a) == 1 and not kw:
        f = ip.fz(a[0])
        L = ip.as_list(a[0])
        L = ip.fz(L)
        if L.op == "ite":
            return t.ite(L.args[0], _conc2(self, [L.args[1]], kw, fname), _conc2(self, [L.args[2]], kw, fname))
        if L.op == "cat":
            for i, p in enumerate(L.args):
                if p.op == "ite":
                    x = t.cat(*(L.args[:i] + (p.args[1],) + L.args[i + 1:]))
                    y = t.cat(*(L.args[:i] + (p.args[2],) + L.args[i + 1:]))
                    return t.ite(p.args[0], _conc2(self, [x], kw, fname), _conc2(self, [y], kw, fname))
        return mk("call", fname, L)


@ef("scipy.linalg.block_diag")
def _bd(self, a, kw):
    ip = self.ip
    if len(a) == 1 and a[0].op == "star":
        L = a[0].args[0]
    else:
        L = t.lst(*[ip.fz(x) for x in a])
    L = ip.fz(L)
    if L.op == "list" and L.args:
        vs = [self.lits.of(x) for x in L.args]
        r = self.lits.blockdiag(vs) if all(v is not None for v in vs) else None
        if r is not None:
            return r.term()
    if L.op == "cat":
        for i, p in enumerate(L.args):
            if p.op == "ite":
                x = t.cat(*(L.args[:i] + (p.args[1],) + L.args[i + 1:]))
                y = t.cat(*(L.args[:i] + (p.args[2],) + L.args[i + 1:]))
                return t.ite(p.args[0], _bd(self, [mk("star", x)], kw), _bd(self, [mk("star", y)], kw))
    return mk("call", "block_diag", L)


@ef("scipy.sparse.block_diag")
def _sbd(self, a, kw):
    L = self.ip.fz(self.ip.as_list(a[0]))
    if L.op == "list" and L.args:
        vs = [self.lits.of(x) for x in L.args]
        r = self.lits.blockdiag(vs) if all(v is not None for v in vs) else None
        if r is not None:
            return r.term()
    return mk("call", "block_diag", self.ip.fz(self.ip.as_list(a[0])))


@ef("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_array")
def _csc(self, a, kw):
    f = self.ip.fz(a[0])
    if f.op == "tuple" and len(f.args) == 2 and not any(x.op in ("tuple", "list", "array") or self.kindof_arr(x) for x in f.args) and set(kw) <= {"dtype"}:
        return mk("zeros", "d", f)
    if f.op == "tuple" or kw:
        return None
    return f


@ef("scipy.sparse.dia_matrix")
def _dia(self, a, kw):
    x = self.ip.fz(a[0])
    if x.op == "tuple" and len(x.args) == 2 and x.args[1] in (mk("array", t.lst(ZERO)), t.lst(ZERO), ZERO) and self.ndim(x.args[0]) is ONE:
        return self.diag(x.args[0])


@ef("scipy.linalg.cho_factor", "sksparse.cholmod.cholesky")
def _cho(self, a, kw):
    A = self.ip.fz(a[0])
    sparse = "sksparse" in (self.cur or "")
    self.factored(A, "CholmodError" if sparse else "LinAlgError")
    if sparse:
        return mk("cho", A)
    low = self.ip.fz(kw.get("lower", a[1] if len(a) > 1 else FALSE))
    return mk("cho", A, "L" if low is TRUE else "U")


@ef("scipy.linalg.cholesky", "np.linalg.cholesky")
def _chol(self, a, kw):
    A = self.ip.fz(a[0])
    self.factored(A, "LinAlgError")
    low = self.ip.fz(kw.get("lower", a[1] if len(a) > 1 else FALSE))
    return mk("chofac", A, "L" if low is TRUE else "U")


def _ints(ip, a, kw, names):
    d = dict(zip(names, a))
    d.update(kw)
    r = []
    for n in names:
        v = ip.fz(d[n]) if n in d else NONE
        r.append(v)
    return r if len(d) <= len(names) else None


@ef("healpy.Alm.getsize", "healpy.sphtfunc.Alm.getsize")
def _almsize(self, a, kw):
    l, m = _ints(self.ip, a, kw, ("lmax", "mmax"))
    if m is NONE and l is not NONE:
        return t.mul(t.num(Fraction(1, 2)), t.add(l, ONE), t.add(l, t.num(2)))


@ef("healpy.Alm.getidx", "healpy.sphtfunc.Alm.getidx")
def _almidx(self, a, kw):
    L, l, m = _ints(self.ip, a, kw, ("lmax", "l", "m"))
    return t.add(t.mul(t.num(Fraction(1, 2)), m, t.sub(t.add(t.mul(t.num(2), L), ONE), m)), l)


@ef("healpy.nside2npix")
def _npix(self, a, kw):
    n, = _ints(self.ip, a, kw, ("nside",))
    return t.mul(t.num(12), n, n)


EXTF["np.linalg.cholesky"] = lambda self, a, kw: (self.factored(self.ip.fz(a[0]), "LinAlgError"), mk("chofac", self.ip.fz(a[0]), "L"))[1]


@ef("scipy.linalg.cho_solve")
def _chs(self, a, kw):
    ip = self.ip
    cf = ip.fz(a[0])
    if cf.op == "cho":
        return self.solve(cf.args[0], ip.fz(a[1]))
    if cf.op == "tuple" and len(cf.args) == 2:
        x = cf.args[0]
        if x.op in ("chofac",):
            return self.solve(x.args[0], ip.fz(a[1]))


@ef("np.linalg.inv", "scipy.sparse.linalg.inv", "np.linalg.pinv")
def _inv(self, a, kw):
    if self.numinv(self.ip.fz(a[0])) is None:
        self.ip.note("op", t.s("inv"))
    return self.inv(self.ip.fz(a[0]))


@ef("np.linalg.solve", "scipy.sparse.linalg.spsolve")
def _solve(self, a, kw):
    if self.numinv(self.ip.fz(a[0])) is None:
        self.ip.note("op", t.s("solve"))
    return self.solve(self.ip.fz(a[0]), self.ip.fz(a[1]))


@ef("np.linalg.slogdet")
def _sld(self, a, kw):
    return mk("slogdet", self.ip.fz(a[0]))


@ef("np.random.seed")
def _seed(self, a, kw):
    ip = self.ip
    ip.st.rng = mk("seeded", ip.fz(a[0]) if a else NONE)
    return NONE


@ef("np.isin")
def _isin(self, a, kw):
    x, y = self.ip.fz(a[0]), self.ip.fz(a[1])
    ys = self.setlist(y.args[0] if y.op == "array" else y)
    v = self.lits.nested(x) if x.op == "list" and x.args else self.lits.of(x)
    if v is not None and ys is not None and all(self.lits.scalar(e) for e in ys):
        return lit.Lit(v.dims, [t.or_(*[t.eq(e, k) for k in ys]) for e in v.flat]).term()
    return mk("call", "np.isin", x, y)


@ef("np.arange")
def _arange(self, a, kw):
    ip = self.ip
    a = [ip.fz(x) for x in a]
    if len(a) == 1:
        a = [ZERO] + a
    if len(a) == 3 and a[2] is ONE:
        a = a[:2]
    if all(t.isint(x) for x in a) and not kw:
        r = range(*[int(t.numval(x)) for x in a])
        if len(r) <= 64:
            return mk("array", t.lst(*[t.num(i) for i in r]))
    kk = {k: ip.fz(v) for k, v in kw.items()}
    return mk("call", "np.arange", *a, *[mk("kw", k, self.dtname(v)) for k, v in sorted(kk.items())])


@ef("itertools.combinations")
def _comb(self, a, kw):
    ip = self.ip
    segs = ip.segments(a[0])
    n = ip.fz(a[1]) if len(a) > 1 else ip.fz(kw["r"])
    if segs is not None and t.isint(n):
        out = []
        for c in itertools.combinations(segs, int(t.numval(n))):
            gs = [g for g, _ in c if g is not None]
            p = t.lst(t.tup(*[e for _, e in c]))
            out.append(t.ite(t.and_(*gs), p, t.lst()) if gs else p)
        return t.cat(*out)
    return mk("call", "itertools.combinations", ip.fz(a[0]), n)


@ef("itertools.combinations_with_replacement", "itertools.permutations")
def _comb2(self, a, kw):
    return None


@ef("itertools.product")
def _prod(self, a, kw):
    ip = self.ip
    segs = [ip.segments(x) for x in a]
    rep = kw.get("repeat")
    if rep is not None:
        segs = segs * int(t.numval(ip.fz(rep)))
    if all(s is not None and all(g is None for g, _ in s) for s in segs):
        return t.lst(*[t.tup(*[e for _, e in c]) for c in itertools.product(*segs)])


@ef("itertools.chain")
def _chain(self, a, kw):
    ip = self.ip
    if len(a) == 1 and a[0].op == "star":
        return mk("mapseq", mk("concat", a[0].args[0]))
    return t.cat(*[ip.as_list(x) for x in a])


@ef("itertools.chain.from_iterable")
def _chainfi(self, a, kw):
    ip = self.ip
    segs = ip.segments(a[0])
    if segs is not None:
        return t.cat(*[ip.as_list(e) if g is None else t.ite(g, ip.as_list(e), t.lst()) for g, e in segs])


@ef("itertools.count", "itertools.accumulate")
def _count(self, a, kw):
    ip = self.ip
    segs = ip.segments(a[0]) if a else None
    return None


@ef("functools.wraps")
def _wraps(self, a, kw):
    from .interp import newpv, Func
    src = a[0]

    class _W:
        pass
    return mk("wraps", src)


@ef("functools.partial")
def _partial(self, a, kw):
    from .interp import newpv, Partial
    return newpv(Partial(a[0], list(a[1:]), dict(kw)))


@ef("functools.lru_cache", "functools.cache", "functools.cached_property")
def _lru(self, a, kw):
    if a and a[0].op == "pv":
        return a[0]
    return mk("identdeco")


@ef("functools.reduce")
def _reduce(self, a, kw):
    ip = self.ip
    segs = ip.segments(a[1])
    if segs is None or any(g is not None for g, _ in segs):
        return None
    items = [e for _, e in segs]
    acc = a[2] if len(a) > 2 else items.pop(0)
    for e in items:
        acc = ip.call(a[0], [acc, e], {})
    return acc


@ef("operator.itemgetter")
def _ig(self, a, kw):
    v = t.fresh()
    return t.bind("lam", [v], t.at(v, self.ip.fz(a[0])) if len(a) == 1 else t.tup(*[t.at(v, self.ip.fz(x)) for x in a]))


@ef("operator.attrgetter")
def _ag(self, a, kw):
    n = self.ip.fz(a[0])
    return mk("attrgetter", n)


@ef("six.add_metaclass")
def _am(self, a, kw):
    return mk("addmeta", a[0])


@ef("six.iteritems")
def _iti(self, a, kw):
    return self.call_method(a[0], "items", [], {})


@ef("inspect.getfullargspec", "inspect.getargspec", "inspect.signature")
def _gfa(self, a, kw):
    ip = self.ip
    f = a[0]
    skip = 0
    o = ip_pv(f)
    while o is not None and o.__class__.__name__ in ("Bound", "Wrap"):
        f = o.func if o.__class__.__name__ == "Bound" else o.f
        o = ip_pv(f)
    if o.__class__.__name__ == "Func":
        A = o.node.args
        names = [x.arg for x in A.posonlyargs + A.args]
        obj = ip.alloc("val", mk("argspec", t.lst(*[t.s(n) for n in names]),
                                 t.tup(*o.defaults) if o.defaults else NONE,
                                 t.s(A.vararg.arg) if A.vararg else NONE, t.s(A.kwarg.arg) if A.kwarg else NONE))
        return ip.cell(obj).val
    return mk("call", "inspect.getfullargspec", ip.arg(f))


@ef("collections.defaultdict")
def _dd(self, a, kw):
    from .interp import Cell
    ip = self.ip
    return mk("ddict", a[0]) if False else ip.mkdefaultdict(a[0] if a else NONE)


@ef("collections.namedtuple")
def _nt(self, a, kw):
    return None


@ef("logging.getLogger")
def _gl(self, a, kw):
    return mk("call", "logging.getLogger")


@ef("np.tile")
def _tile(self, a, kw):
    return None


@ef("np.ravel")
def _ravel(self, a, kw):
    return None


@ef("np.repeat")
def _repeat(self, a, kw):
    ip = self.ip
    f = ip.fz(a[0])
    if f.op == "ite":
        return t.ite(f.args[0], ip.ext.call_ext("np.repeat", [f.args[1]] + a[1:], kw), ip.ext.call_ext("np.repeat", [f.args[2]] + a[1:], kw))
    n = ip.fz(a[1]) if len(a) == 2 and not kw else None
    if n is not None and t.isint(n) and f.op in ("array", "list"):
        v = self.lits.of(f if f.op == "array" else mk("array", f))
        if v is not None and len(v.flat) * int(t.numval(n)) <= 64:
            return mk("array", t.lst(*[e for e in v.flat for _ in range(int(t.numval(n)))]))
    if len(a) == 2 and not kw:
        c, p = t.coef_split(f)
        if c != 1 and p.op != "num":
            return t.mul(t.num(c), mk("call", "np.repeat", p, ip.fz(a[1])))


METHODNAMES = {"_binopt", "append", "extend", "items", "keys", "values", "get", "update", "pop", "copy", "format", "join", "split", "lower", "upper", "strip",
               "startswith", "endswith", "sum", "mean", "max", "min", "dot", "reshape", "flatten", "ravel", "astype", "view", "transpose", "argsort",
               "repeat", "std", "prod", "any", "all", "cumsum", "tolist", "logdet", "inv", "toarray", "todense", "tocsc", "swapaxes", "setdefault", "index",
               "add", "remove", "sort", "insert", "union", "difference", "intersection", "fill", "squeeze", "conj", "conjugate", "item", "tobytes",
               "replace", "decode", "encode", "rstrip", "lstrip", "count", "close", "unlink", "readlines", "read", "write", "cholesky_inplace", "nonzero", "argmin",
               "argmax", "round", "clip", "title", "diagonal", "searchsorted", "byteswap", "newbyteorder", "to", "to_numpy", "to_list",
               "getvalue", "as_parfile", "formbats", "splitlines", "isdigit", "solve"}
