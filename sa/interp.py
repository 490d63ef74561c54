"""Abstract interpreter: Python source -> gated value graphs (terms).  Nothing is executed or imported.

Branches are evaluated on forked abstract states and joined with gates; function calls are resolved through the
analysed program (closures, classes made inside factories, metaclass operators, decorators) and their value graphs
substituted in; external library functions are uninterpreted symbols with a fixed list of algebraic laws (ext.py)."""
import builtins
import ast
import itertools
import os

from . import terms as t
from . import fold
from .terms import T, mk, Undecided, NONE, TRUE, FALSE, ZERO, ONE, ELL

_ids = itertools.count(1)
MAXDEPTH = 60
MAXSTEPS = 400000


VIEWMETHS = {"ravel", "reshape", "squeeze", "view", "swapaxes", "transpose", "asarray", "asanyarray", "atleast_1d", "atleast_2d", "expand_dims"}


def numeric(x):
    """a number or a literal array of numbers"""
    if x.op == "num":
        return True
    return x.op == "array" and x.args[0].op == "list" and all(numeric(e) if e.op != "list" else numeric(mk("array", e)) for e in x.args[0].args)


class Dead(Exception):
    """The current abstract path is unreachable / has left the function."""


class Cell:
    __slots__ = ("kind", "val", "attrs", "cls")

    def __init__(self, kind, val=None, attrs=None, cls=None):
        self.kind, self.val, self.attrs, self.cls = kind, val, attrs, cls

    def with_attr(self, name, v):
        a = dict(self.attrs or {})
        a[name] = v
        return Cell(self.kind, self.val, a, self.cls)

    def without_attr(self, name):
        a = dict(self.attrs or {})
        a.pop(name, None)
        return Cell(self.kind, self.val, a, self.cls)

    def with_val(self, v):
        return Cell(self.kind, v, self.attrs, self.cls)


class State:
    __slots__ = ("heap", "base", "over", "facts", "rng", "eff", "mut")

    def __init__(self, base=None):
        self.heap = {}
        self.base = base if base is not None else {}
        self.over = {}
        self.facts = frozenset()
        self.rng = mk("rng0")
        self.eff = t.lst()
        self.mut = frozenset()

    def fork(self, *facts):
        n = State(self.base)
        n.heap = dict(self.heap)
        n.over = dict(self.over)
        n.facts = self.facts
        n.rng, n.eff, n.mut = self.rng, self.eff, self.mut
        for f in facts:
            n.assume(f)
        return n

    def assume(self, f):
        if f.op == "and":
            self.facts = self.facts | set(f.args) | {f}
        else:
            self.facts = self.facts | {f}

    def get(self, i):
        c = self.heap.get(i)
        return c if c is not None else self.base.get(i)

    def put(self, i, c):
        self.heap[i] = c


def _ite(c, a, b):
    if a is None:
        a = mk("undef")
    if b is None:
        b = mk("undef")
    return t.ite(c, a, b)


def mayundef(a):
    return a.op == "undef" or a.op == "ite" and (mayundef(a.args[1]) or mayundef(a.args[2]))


def hasref(a):
    return a.op == "ref" or a.op == "ite" and (hasref(a.args[1]) or hasref(a.args[2]))


def merge(c, s1, s2):
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    if s1 is s2:
        return s1
    n = State(s1.base)
    n.facts = s1.facts & s2.facts
    n.rng = t.ite(c, s1.rng, s2.rng)
    n.eff = t.ite(c, s1.eff, s2.eff) if s1.eff is not s2.eff else s1.eff
    n.mut = s1.mut | s2.mut
    for k in s1.heap.keys() | s2.heap.keys():
        a, b = s1.get(k), s2.get(k)
        if a is b or b is None:
            n.heap[k] = a
            continue
        if a is None:
            n.heap[k] = b
            continue
        val = None
        if a.val is not None or b.val is not None:
            val = _ite(c, a.val, b.val) if a.val is not b.val else a.val
        attrs = None
        if a.attrs is not None or b.attrs is not None:
            aa, ba = a.attrs or {}, b.attrs or {}
            if aa is ba:
                attrs = aa
            else:
                attrs = {}
                for name in list(aa) + [x for x in ba if x not in aa]:
                    x, y = aa.get(name), ba.get(name)
                    attrs[name] = x if x is y else _ite(c, x, y)
        n.heap[k] = Cell(a.kind, val, attrs, a.cls)
    for k in s1.over.keys() | s2.over.keys():
        x, y = s1.over.get(k, k), s2.over.get(k, k)
        n.over[k] = x if x is y else t.ite(c, x, y)
    return n


# ------------------------------------------------------------------ program objects
class Func:
    def __init__(self, node, env, mod, qual, cls=None):
        self.node, self.env, self.mod, self.qual, self.cls = node, env, mod, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults = [], {}
        self.wrapped = None
        self.isgen = False


class Class:
    def __init__(self, name, bases, mod, qual):
        self.name, self.bases, self.mod, self.qual = name, bases, mod, qual
        self.meta = None
        self.mro = None


class Mod:
    def __init__(self, name, path):
        self.name, self.path, self.env, self.loaded = name, path, None, False
        self.tree = None


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Wrap:
    """property / staticmethod / classmethod objects"""

    def __init__(self, kind, f, fset=None):
        self.kind, self.f, self.fset = kind, f, fset


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


PV = {}


def newpv(o):
    i = next(_ids)
    PV[i] = o
    return mk("pv", i)


def pvof(x):
    return PV.get(x.args[0]) if x.op == "pv" else None


def scopes(tree):
    """{function node: the names bound in it and in the scopes around it}"""
    out = {}
    def names(body):
        r, subs = set(), []

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r.add(n.name)
                subs.append(n)
                for d in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                    go(d)
                return
            if isinstance(n, ast.Lambda):
                subs.append(n)
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                    go(d)
                return
            if isinstance(n, ast.ClassDef):
                r.add(n.name)
            elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                r.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r.update((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                r.update(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                r.add(n.rest)
            for c in ast.iter_child_nodes(n):
                go(c)
        for n in body:
            go(n)
        return r, subs

    def visit(body, around):
        r, subs = names(body)
        r = r | around
        for f in subs:
            a = f.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None}
            body = [f.body] if isinstance(f, ast.Lambda) else f.body
            out[f] = (visit(body, r | ps), names(body)[0] - ps - glob if not isinstance(f, ast.Lambda) else set())
        return r
    glob = {x for n in ast.walk(tree) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    visit(tree.body, glob | {"__name__", "__file__", "__doc__", "__class__"})
    return out


class Frame:
    def __init__(self, env, mod, func=None, cls=None):
        self.env, self.mod, self.func, self.cls = env, mod, func, cls
        self.exits = []
        self.yields = None
        self.selfname = None
        self.globals_ = set()
        self.nonlocals = {}
        self.abstracted = False
        self.env_of_call = func is not None and env is not None


def ext(name):
    return mk("ext", name)


BUILTINS = {"len", "range", "isinstance", "issubclass", "zip", "enumerate", "getattr", "hasattr", "setattr", "delattr", "list",
            "dict", "set", "tuple", "sum", "any", "all", "min", "max", "sorted", "reversed", "float", "int", "str", "bool",
            "abs", "print", "super", "type", "open", "slice", "map", "filter", "callable", "iter", "next", "id", "hash",
            "round", "complex", "property", "staticmethod", "classmethod", "object", "locals", "vars", "frozenset", "repr",
            "divmod", "pow", "bytes", "format", "globals", "input", "__import__", "chr", "ord"}
EXCS = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError",
        "NotImplementedError", "ImportError", "IOError", "OSError", "AssertionError", "ZeroDivisionError", "StopIteration",
        "FileNotFoundError", "ModuleNotFoundError", "UserWarning", "DeprecationWarning", "LookupError", "ArithmeticError",
        "Warning", "NameError", "FutureWarning", "RuntimeWarning", "BufferError", "PermissionError", "EOFError"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "FileNotFoundError": "OSError", "IOError": "OSError",
              "NotImplementedError": "RuntimeError", "ModuleNotFoundError": "ImportError", "PermissionError": "OSError"}
CONSTS = {"scipy.constants.day": 86400, "scipy.constants.Julian_year": 31557600, "scipy.constants.Julian_day": 86400,
          "scipy.constants.speed_of_light": 299792458, "scipy.constants.c": 299792458, "scipy.constants.year": 31536000,
          "scipy.constants.au": 149597870700, "scipy.constants.astronomical_unit": 149597870700,
          "scipy.constants.hour": 3600, "scipy.constants.minute": 60, "scipy.constants.G": 6.6743e-11,
          "scipy.constants.gravitational_constant": 6.6743e-11, "scipy.constants.parsec": 3.085677581491367e16}
IGNORED_CALLS = ("logging.", "warnings.")


class Interp:
    def __init__(self, root, package="enterprise", mounts=None, trees=None):
        self.externs = {}
        """root: directory that contains the package; mounts: {package: dir}"""
        self.root = root
        self.package = package
        self.trees = trees  # optional {modname: ast} overriding files (mutants)
        self.mods = {}
        self.st = State()
        self.fr = None
        self.depth = 0
        self.steps = 0
        self.opaque = frozenset()
        self.ddef = {}
        self.known = {}
        self.callstack = []
        self.touched = set()
        self.owned = set()
        self.loopsym = True
        self.fallible = None
        self.active = []
        self.unsupported = []
        from . import ext as _e
        self.ext = _e.Ext(self)
        self.modof = {}

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        if not (name == self.package or name.startswith(self.package + ".")):
            return None
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.root, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            return None
        m = Mod(name, path)
        self.mods[name] = m
        m.env = self.newenv(None)
        m.pv = newpv(m)
        return m

    def load(self, m):
        if m.loaded:
            return
        m.loaded = True
        if self.trees and m.name in self.trees:
            m.tree = self.trees[m.name]
        else:
            m.tree = ast.parse(open(m.path).read(), m.path)
        fr = Frame(m.env, m)
        fr.qual = m.name.split(".")[-1]
        self.setvar_env(m.env, "__name__", t.s(m.name))
        self.setvar_env(m.env, "__file__", t.s("file:" + m.name))
        saved = self.fr
        self.fr = fr
        try:
            for stmt in m.tree.body:
                try:
                    self.exec_stmt(stmt)
                except Dead:
                    break
                except Undecided as e:
                    # names bound by a statement outside the analysed language stay unknown
                    self.unsupported.append((m.name, getattr(stmt, "lineno", 0), str(e)))
                    for x in ast.walk(stmt) if not isinstance(stmt, (ast.FunctionDef, ast.ClassDef)) else ():
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.setvar_env(m.env, x.id, mk("unknown", m.name + "." + x.id))
                    if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
                        self.setvar_env(m.env, stmt.name, mk("unknown", m.name + "." + stmt.name))
                    if self.st is None:
                        break
        finally:
            self.fr = saved

    def load_all(self):
        base = os.path.join(self.root, *self.package.split("."))
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "datafiles"))
            for f in sorted(fn):
                if f.endswith(".py") and f != "version.py":
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    m = self.find_module(rel)
                    if m:
                        self.load(m)

    def seal(self):
        """make the loaded program the shared base state"""
        b = dict(self.st.base)
        b.update(self.st.heap)
        self.base = b
        self.base_over = dict(self.st.over)
        self.reset()

    def reset(self):
        self.st = State(self.base)
        self.st.over = dict(self.base_over)
        self.known = {}
        self.depth = 0
        self.steps = 0
        self.fr = None
        self.touched = set()
        self.owned = set()
        self.callstack = []
        self.fallible = None
        self.active = []
        self.externs = {}

    # ------------------------------------------------------------ heap
    def alloc(self, kind, val=None, attrs=None, cls=None):
        i = next(_ids)
        self.st.put(i, Cell(kind, val, attrs, cls))
        fr = self.fr
        if kind == "val" and fr is not None and getattr(fr, "qual", "").startswith("<obs>") and (fr.func is None or fr.qual.endswith(".__init__")):
            self.owned.add(i)
        return mk("ref", i)

    def caller_write(self, r):
        """the code under analysis writes to a container that the calling program made"""
        if r.args[0] in self.owned and not getattr(self.fr, "qual", "<obs>").startswith("<obs>"):
            v = self.cell(r).val
            k = t.kind(v) if v is not None else None
            self.st.mut = self.st.mut | {mk("owned", t.s(k if k in ("list", "dict") else "array"))}

    def newenv(self, parent):
        i = next(_ids)
        self.st.put(i, Cell("env", None, {}, parent))
        return i

    def cell(self, r):
        return self.st.get(r.args[0])

    def setvar_env(self, env, name, v):
        self.st.put(env, self.st.get(env).with_attr(name, v))

    def box(self, v, kind="val"):
        """give a value that may be aliased and mutated an identity"""
        if v.op in ("list", "dict", "cat", "flat", "dset", "dflat", "setof", "zeros", "ones", "store", "sflat", "array", "sorted", "rep", "ldel", "ddel",
                    "setop", "mapseq", "todict", "cho", "rec") or v.op == "at" and t.kind(v) == "list":
            return self.alloc("val", v)
        if v.op in ("mono", "poly", "array", "diag", "eye"):
            n = self.ext.ndim(v)
            if t.isint(n) and t.numval(n) >= 1 or v.op in ("mono", "poly") and self.hasarr(v):
                return self.alloc("val", v)
        if v.op == "ite":
            a, b = self.box(v.args[1], kind), self.box(v.args[2], kind)
            if a is not v.args[1] or b is not v.args[2]:
                if a is not v.args[1] and b is not v.args[2] and a.op == "ref" and b.op == "ref":
                    return self.alloc("val", v)
                return t.ite(v.args[0], a, b)
        return v

    def hasarr(self, v):
        """an elementwise expression with a factor known to be an array"""
        for a in v.args:
            if isinstance(a, T) and a.op not in ("num",):
                if a.op in ("mono", "poly"):
                    if self.hasarr(a):
                        return True
                elif a.op in ("sym", "attr", "at"):
                    k = self.known.get(mk("kindof", a))
                    if k is not None and k.op == "str" and k.args[0] == "arr":
                        return True
        return False

    def val(self, x):
        """content of a reference / current value of a location (one level)"""
        n = 0
        while True:
            n += 1
            if n > 20:
                raise Undecided("reference chain")
            if x.op == "ref":
                c = self.cell(x)
                if c is None:
                    raise Undecided("dangling")
                if c.kind == "view":
                    return self.viewval(c)
                if c.val is not None and c.kind != "obj":
                    x = c.val
                    continue
                return x
            if self.st.over and x in self.st.over:
                y = self.st.over[x]
                if y is x:
                    return x
                x = y
                continue
            if x.op == "ite":
                a, b = self.val(x.args[1]), self.val(x.args[2])
                return t.ite(x.args[0], a, b) if (a is not x.args[1] or b is not x.args[2]) else x
            return x

    def viewval(self, c):
        base, idx = c.val.args
        if idx.op == "vop":
            return self.vop(idx, self.fz(base))
        return t.at(self.fz(base), self.fz(idx))

    def vop(self, op, v):
        """transposed or reshaped view of v"""
        if op.args[0] == "T":
            return self.ext.tr(v)
        return self.ext.reshape(v, op.args[1])

    def unvop(self, op, base, new):
        """content of the base after the view became `new`"""
        if op.args[0] == "T":
            return self.ext.tr(new)
        return self.ext.reshape(new, self.ext.shape(self.fz(base)))

    def put_whole(self, b, v):
        if b.op == "ref":
            self.setcell(b, v)
        elif b.op == "at" and rootstate(b):
            self.store_loc(b.args[0], b.args[1], v)
        else:
            cur = self.st.over.get(b, b)
            if cur.op == "ref":
                self.setcell(cur, v)
            else:
                self.st.over[b] = v

    _refmemo = {}

    def hasref(self, x):
        m = self._refmemo
        r = m.get(x)
        if r is None:
            r = x.op == "ref" or any(self.hasref(a) for a in x.args if isinstance(a, T))
            m[x] = r
        return r

    def fz(self, x, objs=False, memo=None, stack=()):
        """replace references by their contents (objects stay references unless objs)"""
        if not objs and not self.st.over and not self.hasref(x):
            return x
        if memo is None:
            memo = {}
        return self._fz(x, objs, memo, stack)

    def _fz(self, x, objs, memo, stack):
        if not objs and not self.st.over and not self.hasref(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ref":
            if x in stack:
                return mk("cyc")
            c = self.cell(x)
            if c is None:
                raise Undecided("dangling reference")
            if c.kind == "obj":
                if c.val is not None and not objs:
                    b = self.ext_base(c.cls)
                    if b is not None:
                        r = self._fz(c.val, objs, memo, stack + (x,))
                        memo[x] = r
                        return r
                if not objs:
                    return x
                if c.val is not None and not any(not k.startswith("_") for k in c.attrs or {}) and self.ext_base(c.cls) is not None:
                    r = self._fz(c.val, objs, memo, stack + (x,))      # an array subclass without attributes is its array
                    memo[x] = r
                    return r
                parts = []
                if c.val is not None:
                    parts.append(self._fz(c.val, objs, memo, stack + (x,)))
                for k in sorted(c.attrs):
                    if k.startswith("_"):
                        continue
                    parts.append(t.tup(t.s(k), self._fz(c.attrs[k], objs, memo, stack + (x,))))
                r = mk("obj", *parts)
            elif c.kind == "view":
                b, i = c.val.args
                r = self._fz(b, objs, memo, stack + (x,))
                r = self.vop(i, r) if i.op == "vop" else t.at(r, self._fz(i, objs, memo, stack + (x,)))
            else:
                r = self._fz(c.val, objs, memo, stack + (x,))
            memo[x] = r
            return r
        if self.st.over and x in self.st.over:
            y = self.st.over[x]
            if y is not x:
                if x in stack:
                    return x
                r = self._fz(y, objs, memo, stack + (x,)) if not self._self_in(x, y) else self._fz_children(y, objs, memo, stack + (x,), x)
                memo[x] = r
                return r
        if x.op == "pv" and objs:
            # which function or class object is handed out is not observed
            r = memo[x] = mk("klass" if isinstance(PV.get(x.args[0]), Class) else "fun")
            return r
        r = self._fz_children(x, objs, memo, stack)
        memo[x] = r
        return r

    def _self_in(self, x, y):
        return False

    def _fz_children(self, x, objs, memo, stack, skip=None):
        ch = False
        new = []
        for a in x.args:
            if isinstance(a, T):
                if x.op in ("dict", "dset") and self.isobj(a):
                    b = a
                    if objs and a.op == "ref":
                        b = self._fz(a, objs, memo, stack)
                else:
                    b = self._fz(a, objs, memo, stack)
                ch = ch or b is not a
                new.append(b)
            else:
                new.append(a)
        if not ch:
            return x
        if x.op in t.BINDERS:
            return t._rebind(x, new)
        return t.rebuild(x.op, new)

    def isobj(self, a):
        if a.op == "ref":
            c = self.cell(a)
            return c is not None and c.kind == "obj"
        return False

    def kind(self, x):
        x = self.val(x)
        k = t.kind(x)
        return k

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        f = self.st.facts
        if c in (TRUE, FALSE) or not f:
            return c
        return self._decide(c, f)

    def _decide(self, c, f):
        if c in (TRUE, FALSE):
            return c
        if c in f:
            return TRUE
        if t.not_(c) in f:
            return FALSE
        if c.op == "and":
            return t.and_(*[self._decide(a, f) for a in c.args])
        if c.op == "or":
            return t.or_(*[self._decide(a, f) for a in c.args])
        if c.op == "ite":
            return t.ite(self._decide(c.args[0], f), self._decide(c.args[1], f), self._decide(c.args[2], f))
        return c

    def branch(self, c, f1, f2):
        c = self.decide(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        s0, saved, fr = self.st, self.fr.exits, self.fr
        out = []
        for cond, fn in ((c, f1), (t.not_(c), f2)):
            self.st = s0.fork(cond)
            fr.exits = []
            try:
                v = fn()
                st = self.st
            except Dead:
                v, st = None, None
            finally:
                self.fr = fr
            ex = [(t.and_(cond, e[0]),) + e[1:] for e in fr.exits]
            out.append((v, st, ex))
        fr.exits = saved + out[0][2] + out[1][2]
        (v1, a1, _), (v2, a2, _) = out
        if a1 is None and a2 is None:
            self.st = None
            raise Dead
        if a1 is None:
            self.st = a2
            return v2
        if a2 is None:
            self.st = a1
            return v1
        self.st = merge(c, a1, a2)
        if v1 is None:
            return None
        return t.ite(c, v1, v2)

    def raise_(self, exc, cond=TRUE):
        """record a possible exception; continue on the other path"""
        cond = self.decide(cond)
        if cond is FALSE:
            return
        self.fr.exits.append((cond, "raise", exc, self.st.fork()))
        if cond is TRUE:
            raise Dead
        self.st.assume(t.not_(cond))

    def exc(self, name, *args):
        return mk("exc", name, *args)

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for stmt in body:
            self.exec_stmt(stmt)

    def exec_stmt(self, n):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided("step limit")
        self.curline = n.lineno
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Undecided("statement " + type(n).__name__)
        m(n)

    def st_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def st_Pass(self, n):
        pass

    def st_Import(self, n):
        for a in n.names:
            m = self.find_module(a.name)
            if m is not None:
                self.load(m)
                if a.asname:
                    self.setvar(a.asname, m.pv)
                else:
                    top = self.find_module(a.name.split(".")[0])
                    self.setvar(a.name.split(".")[0], top.pv)
            else:
                if a.asname:
                    self.setvar(a.asname, self.extmod(a.name))
                else:
                    self.setvar(a.name.split(".")[0], self.extmod(a.name.split(".")[0]))

    def extmod(self, name):
        return ext({"numpy": "np"}.get(name, "np" + name[5:] if name.startswith("numpy.") else name))

    def st_ImportFrom(self, n):
        if n.level:
            base = self.fr.mod.name.split(".")
            if not self.fr.mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (n.level - 1)]
            name = ".".join(base + ([n.module] if n.module else []))
        else:
            name = n.module
        m = self.find_module(name)
        for a in n.names:
            if m is not None:
                self.load(m)
                sub = self.find_module(name + "." + a.name)
                v = self.st.get(m.env).attrs.get(a.name)
                if v is None and sub is not None:
                    self.load(sub)
                    v = sub.pv
                if v is None:
                    if a.name == "__version__":
                        v = t.sym("__version__")
                    else:
                        v = ext(name + "." + a.name)
                self.setvar(a.asname or a.name, v)
            else:
                self.setvar(a.asname or a.name, self.getattr_ext(self.extmod(name), a.name))

    def getattr_ext(self, e, attr):
        name = e.args[0] + "." + attr
        return self.ext.constant(name)

    def st_FunctionDef(self, n):
        f = self.mkfunc(n)
        for d in reversed(n.decorator_list):
            dv = self.ev(d)
            f = self.call(dv, [f], {}, node=d)
        self.setvar(n.name, f)

    def mkfunc(self, n):
        qual = getattr(self.fr, "qual", "?") + "." + getattr(n, "name", "<lambda>")
        fn = Func(n, self.fr.env, self.fr.mod, qual, self.fr.cls)
        a = n.args
        fn.defaults = [self.alias(self.ev(d)) for d in a.defaults]
        fn.kwdefaults = {k.arg: self.alias(self.ev(d)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        # class bodies are not enclosing scopes
        env = self.fr.env
        if getattr(self.fr, "isclass", False):
            env = self.fr.outer_env
        fn.env = env
        fn.isgen = not isinstance(n, ast.Lambda) and _has_yield(n)
        return newpv(fn)

    st_AsyncFunctionDef = None

    def st_ClassDef(self, n):
        bases = [self.ev(b) for b in n.bases]
        cls = Class(n.name, bases, self.fr.mod, getattr(self.fr, "qual", "?") + "." + n.name)
        for kw in n.keywords:
            if kw.arg == "metaclass":
                cls.meta = self.ev(kw.value)
        pv = newpv(cls)
        cls.pv = pv
        cls.mro = self.mro(cls)
        env = self.newenv(self.fr.env)
        fr = Frame(env, self.fr.mod, self.fr.func, pv)
        fr.isclass = True
        fr.outer_env = self.fr.env if not getattr(self.fr, "isclass", False) else self.fr.outer_env
        fr.qual = cls.qual
        outer = self.fr
        # class-body exits belong to the enclosing frame
        fr.exits = outer.exits
        self.fr = fr
        try:
            self.exec_block(n.body)
        finally:
            self.fr = outer
        outer.exits = fr.exits
        ns = dict(self.st.get(env).attrs)
        self.st.put(pv.args[0], Cell("cls", None, ns, pv))
        v = pv
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {}, node=d)
        self.setvar(n.name, v)

    def mro(self, cls):
        seqs = []
        for b in cls.bases:
            o = pvof(b)
            if isinstance(o, Class):
                seqs.append(list(o.mro))
            else:
                seqs.append([b])
        seqs.append([b for b in cls.bases])
        out = [cls.pv]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in q[1:] for q in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def st_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        self.fr.exits.append((TRUE, "return", v, self.st))
        raise Dead

    def st_Raise(self, n):
        if n.exc is None:
            e = mk("exc", "reraise") if not getattr(self.fr, "handling", None) else self.fr.handling[-1]
        else:
            e = self.ev(n.exc)
            if e.op == "ext" or e.op == "bi":
                e = mk("exc", e.args[0])
        e = self.mkexc(e)
        self.fr.exits.append((TRUE, "raise", e, self.st))
        raise Dead

    def mkexc(self, e):
        if e.op == "exc":
            # messages are not part of the contract
            return mk("exc", e.args[0])
        o = pvof(e)
        if isinstance(o, Class):
            return mk("exc", o.name)
        if self.isobj(e):
            return mk("exc", pvof(self.cell(e).cls).name)
        return mk("exc", "?")

    def st_Assert(self, n):
        c = t.truth(self.fz(self.ev(n.test)))
        self.raise_(self.exc("AssertionError"), t.not_(self.decide(c)))

    def st_Global(self, n):
        self.fr.globals_ |= set(n.names)

    def st_Nonlocal(self, n):
        self.fr.nonlocals.update({x: True for x in n.names})

    def st_Delete(self, n):
        for x in n.targets:
            if isinstance(x, ast.Name):
                c = self.st.get(self.fr.env)
                self.st.put(self.fr.env, c.without_attr(x.id))
            elif isinstance(x, ast.Subscript):
                b = self.ev(x.value)
                k = self.fz(self.ev_index(x.slice))
                if b.op == "instdict":
                    c = self.cell(b.args[0])
                    if k.op == "str":
                        self.st.put(b.args[0].args[0], c.without_attr(k.args[0]))
                    else:
                        raise Undecided("del __dict__[?]")
                else:
                    self.update(b, lambda v: self.ddel(v, k))
            elif isinstance(x, ast.Attribute):
                b = self.ev(x.value)
                if b.op == "ref":
                    self.st.put(b.args[0], self.cell(b).without_attr(x.attr))
                else:
                    self.st.over[mk("attr", b, x.attr)] = mk("deleted")
            else:
                raise Undecided("del")

    def ddel(self, d, k):
        if d.op == "ite":
            return self.branch(d.args[0], lambda: self.ddel(d.args[1], k), lambda: self.ddel(d.args[2], k))
        if d.op in ("cat", "ldel", "flat", "sorted"):
            return mk("ldel", d, k)
        if d.op == "dict":
            out = []
            hit = False
            for i in range(0, len(d.args), 2):
                if d.args[i] is k:
                    hit = True
                    continue
                if not hit and not t.distinct(d.args[i], k):
                    return mk("ddel", d, k)
                out += [d.args[i], d.args[i + 1]]
            return mk("dict", *out)
        if d.op == "dset":
            if d.args[1] is k:
                return self.ddel(d.args[0], k)
            if t.distinct(d.args[1], k):
                return mk("dset", self.ddel(d.args[0], k), *d.args[1:])
        if d.op == "list" and t.isint(k):
            a = list(d.args)
            if not -len(a) <= int(t.numval(k)) < len(a):
                self.raise_(self.exc("IndexError"))
            del a[int(t.numval(k))]
            return t.lst(*a)
        return mk("ddel", d, k)

    def st_Assign(self, n):
        v = self.ev_rhs(n.value)
        for tg in n.targets:
            self.assign(tg, v)

    def st_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev_rhs(n.value))

    def ev_rhs(self, e):
        """value of a right-hand side; slices of mutable arrays become views"""
        if isinstance(e, ast.Subscript) and _has_slice(e.slice):
            b = self.ev(e.value)
            if b.op == "ref" and self.cell(b).kind in ("val", "view") and t.kind(self.val(b)) not in ("list", "tuple", "str", "dict"):
                idx = self.fz(self.ev_index(e.slice))
                if _basic_index(idx):
                    return self.alloc("view", t.tup(b, idx))
            return self.alias(self.subscript(b, self.ev_index(e.slice)))
        r = self.ev(e)
        if r.op != "ref":
            v = self.asview(e, r)
            if v is not None:
                return v
        return self.alias(r)

    def asview(self, e, r):
        """b.T, b.ravel(), np.asarray(b) and the like share the storage of b"""
        if isinstance(e, ast.Attribute) and e.attr == "T":
            src = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in VIEWMETHS:
            f = self.ev(e.func.value) if isinstance(e.func.value, ast.Name) else None
            if f is not None and f.op == "pv":
                return None
            if f is not None and f.op == "ext":
                if not e.args or e.func.attr == "array":
                    return None
                src = e.args[0]
            elif e.func.attr in ("asarray", "asanyarray", "atleast_1d", "atleast_2d", "expand_dims", "broadcast_to"):
                return None
            else:
                src = e.func.value
        else:
            return None
        n = src
        while isinstance(n, ast.Attribute):
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        b = self.ev(src)
        if b.op == "ref":
            if self.cell(b).kind not in ("val", "view") or t.kind(self.val(b)) in ("list", "tuple", "str", "dict", "set"):
                return None
            nested = self.cell(b).kind == "view"
        elif b.op in ("sym", "attr", "fv"):
            nested = False
        else:
            return None
        fr, fb = self.fz(r), self.fz(b)
        if fr is fb:
            return b
        if fr.op == "array" and fb.op in ("list", "tuple"):
            return None
        if isinstance(e, ast.Attribute) or e.func.attr in ("transpose", "swapaxes"):
            if fr is self.ext.tr(fb):
                return self.alloc("view", t.tup(b, mk("vop", "T")))
            return None
        if nested:
            return None
        sh = self.ext.shape(fr)
        if self.ext.reshape(fb, sh) is fr:
            return self.alloc("view", t.tup(b, mk("vop", "reshape", sh)))
        return None

    def alias(self, v):
        return self.box(v)

    def st_AugAssign(self, n):
        tg = n.target
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id)
            rhs = self.ev(n.value)
            self.aug_into(old, n.op, rhs, lambda v: self.setvar(tg.id, v))
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value)
            old = self.getattr(b, tg.attr)
            rhs = self.ev(n.value)
            self.aug_into(old, n.op, rhs, lambda v: self.setattr(b, tg.attr, v))
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value)
            idx = self.ev_index(tg.slice)
            old = self.subscript(b, idx)
            rhs = self.ev(n.value)
            new = self.binop(n.op, old, rhs)
            if self.val(old).op in ("list", "cat", "flat") and isinstance(n.op, ast.Add) and old.op == "ref":
                self.aug_into(old, n.op, rhs, lambda v: None)
                return
            self.store_sub(b, idx, self.fz(new), tg)
        else:
            raise Undecided("augassign")

    def aug_into(self, old, op, rhs, setter):
        w = self.val(old) if old.op == "ref" and self.cell(old).kind == "val" else old
        if w.op == "ite" and hasref(w):
            self.branch(w.args[0], lambda: self.aug_into(w.args[1], op, rhs, setter), lambda: self.aug_into(w.args[2], op, rhs, setter))
            return
        if old.op == "ref":
            c = self.cell(old)
            if c.kind == "obj":
                r = self.try_dunder(old, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(type(op).__name__, ""), [rhs])
                if r is not None:
                    setter(r)
                    return
                if c.val is not None and self.nparray_base(c.cls) and not (self.isobj(rhs) and self.cell(rhs).val is None):
                    # numpy arrays (and their subclasses) are updated in place
                    new = self.fz(self.arith(type(op).__name__, self.fz(c.val), self.fz(rhs)))
                    self.caller_write(old)
                    self.st.put(old.args[0], self.cell(old).with_val(new))
                    setter(old)
                    return
                new = self.binop(op, old, rhs)
                setter(new)
                return
            cur = self.val(old)
            if t.kind(cur) == "list" and isinstance(op, ast.Add):
                self.setcell(old, t.cat(cur, self.as_list(rhs)))
                return
            if t.kind(cur) in ("str", "num", "tuple"):
                setter(self.binop(op, old, rhs))
                return
            new = self.fz(self.binop(op, cur, rhs))
            self.setcell(old, new)
            return
        cur = self.val(old)
        new = self.binop(op, old, rhs)
        if cur.op in ("attr", "sym", "at") and self.arrayish(cur) and not (cur.op == "at" and not self.viewlike(cur)):
            # an input (or part of one) would be updated in place when it is an array
            self.st.mut = self.st.mut | {cur}
        if t.kind(self.val(new)) not in ("num", "str", "bool"):
            new = self.fz(new)
        setter(new)

    def viewlike(self, x):
        """part of an array that shares its storage (a copy, or a single number, does not)"""
        b, i = x.args[0], x.args[1]
        if b.op in ("shape", "len"):
            return False
        ks = i.args if i.op == "tuple" else (i,)
        if any(k.op not in ("slice", "num", "none", "ellipsis") and self.ext.ndim(k) is not ZERO for k in ks):
            return False
        return any(k.op in ("slice", "ellipsis") for k in ks) or self.ext.ndim(x) not in (ZERO, None)

    def arrayish(self, x):
        k = self.known.get(mk("kindof", x))
        return not (k is not None and k.op == "str" and k.args[0] in ("num", "str", "bool"))

    def setcell(self, r, v):
        c = self.cell(r)
        if c.kind == "view":
            b, i = c.val.args
            if i.op == "vop":
                self.put_whole(b, self.unvop(i, b, v))
                return
            self.store_loc(b, i, v)
        else:
            if self.owned:
                self.caller_write(r)
            self.st.put(r.args[0], c.with_val(v))

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.setvar(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            elts = tg.elts
            stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            items = self.as_items(v, None if stars else len(elts))
            if items is None:
                if stars:
                    raise Undecided("star unpack")
                items = [self.subscript(v, t.num(i)) for i in range(len(elts))]
            if stars:
                i = stars[0]
                k = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(elts[i].value, self.box(t.lst(*items[i: len(items) - k])))
                for e, x in zip(elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x)
            else:
                if len(items) != len(elts):
                    self.raise_(self.exc("ValueError"))
                for e, x in zip(elts, items):
                    self.assign(e, self.alias(x))
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value)
            self.setattr(b, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value)
            idx = self.ev_index(tg.slice)
            self.store_sub(b, idx, v, tg)
        else:
            raise Undecided("assign target")

    def as_items(self, v, n=None):
        x = self.val(v)
        if x.op in ("list", "tuple"):
            return list(x.args)
        if x.op == "array" and x.args[0].op == "list":
            return list(x.args[0].args)
        if x.op == "ite" and n is not None:
            a, b = self.as_items(x.args[1], n), self.as_items(x.args[2], n)
            if a is not None and b is not None and len(a) == len(b):
                return [t.ite(x.args[0], p, q) for p, q in zip(a, b)]
            if a is None:
                a = [self.subscript(x.args[1], t.num(i)) for i in range(n)]
            if b is None:
                b = [self.subscript(x.args[2], t.num(i)) for i in range(n)]
            if len(a) == len(b):
                return [t.ite(x.args[0], p, q) for p, q in zip(a, b)]
        if x.op == "setof" and x.args[0].op == "list":
            return t.anyorder(list(x.args[0].args))
        if x.op == "dict":
            return list(x.args[::2])
        return None

    # stores -----------------------------------------------------------
    def store_sub(self, b, idx, v, node=None):
        if b.op == "ite":
            c = self.decide(b.args[0])
            self.branch(c, lambda: self.store_sub(b.args[1], idx, v, node), lambda: self.store_sub(b.args[2], idx, v, node))
            return
        if b.op == "instdict":
            k = self.fz(idx)
            if k.op != "str":
                raise Undecided("__dict__ store")
            self.setattr(b.args[0], k.args[0], v)
            return
        if b.op == "ref":
            c = self.cell(b)
            if c.kind == "obj":
                if self.try_dunder(b, "__setitem__", [idx, v]) is not None:
                    return
                if c.val is not None:
                    self.st.put(b.args[0], c.with_val(t.store(self.fz(c.val), self.fz(idx), self.fz(v))))
                    return
                raise Undecided("item store on object")
            cur = self.val(b)
            if c.kind == "val" and t.kind(cur) in ("dict", "list"):
                k = self.key(idx)
                nv = t.dset(cur, k, v) if t.kind(cur) == "dict" else t.store(cur, k, v)
                self.caller_write(b)
                self.st.put(b.args[0], c.with_val(nv))
                return
            self.store_loc(b, self.key(idx), self.fz(v))
            return
        if b.op in ("sym", "attr", "fv") or (b.op == "at" and rootstate(b)):
            self.store_loc(b, self.key(idx), self.fz(v))
            return
        # value without identity: store through the syntactic location of the target
        if node is not None:
            self.store_path(node.value, idx, v)
            return
        raise Undecided("store into a temporary")

    def key(self, idx):
        if idx.op == "ref" and self.isobj(idx):
            return idx
        return self.fz(idx)

    def store_loc(self, b, idx, v):
        if b.op == "ref":
            c = self.cell(b)
            if c.kind == "view":
                bb, i = c.val.args
                cur = self.viewval(c)
                if i.op == "vop":
                    self.put_whole(bb, self.unvop(i, bb, t.store(cur, idx, v)))
                    return
                self.store_loc(bb, i, t.store(cur, idx, v))
                return
            cur = c.val
            if cur is None:
                raise Undecided("store into object")
            if cur.op in ("sym", "attr"):
                self.store_loc(cur, idx, v)
                return
            self.badstore(self.fz(cur), idx, v)
            r = t.store(self.fz(cur), idx, v)
            if c.attrs and "_U" in c.attrs and r.op == "array":      # strings of limited length
                w = int(t.numval(c.attrs["_U"]))
                r = self.ext.lits.map(r, lambda e: t.s(e.args[0][:w]) if e.op == "str" else e)
            self.caller_write(b)
            self.st.put(b.args[0], c.with_val(r))
        elif b.op == "at" and rootstate(b):
            self.store_loc(b.args[0], b.args[1], t.store(self.fz(b), idx, v))
        else:
            cur = self.st.over.get(b, b)
            if cur.op == "ref":
                self.store_loc(cur, idx, v)
                return
            k = t.kind(cur)
            if k == "?" and idx.op in ("str", "scat"):
                k = "dict"
            self.st.over[b] = t.dset(cur, idx, v) if k == "dict" else t.store(cur, idx, v)

    def badstore(self, x, idx, v):
        """assignments that numpy refuses for certain"""
        if x.op not in self.ARR or idx.op == "str":
            return
        L = self.ext.lits
        b = L.of(x)
        if b is None or not b.nd:
            return
        if L.badindex(b.dims, idx):
            self.raise_(self.exc("IndexError"))
        w = L.of(v) if v.op in self.ARR else None
        if w is not None and w.nd:
            r = L.index(b.dims, idx)
            if r is not None and 0 not in r[1] and L.bcast(w, list(r[1])) is None:
                self.raise_(self.exc("ValueError"))

    def store_path(self, base_node, idx, v):
        """store into the value denoted by an expression: nested subscripts / attributes / transposes"""
        if isinstance(base_node, ast.Subscript):
            bb = self.ev(base_node.value)
            i = self.ev_index(base_node.slice)
            cur = self.fz(self.subscript(bb, i))
            new = t.store(cur, self.key(idx), self.fz(v)) if t.kind(cur) != "dict" else t.dset(cur, self.key(idx), v)
            self.store_sub(bb, i, new, base_node)
        elif isinstance(base_node, ast.Attribute) and base_node.attr == "T":
            bb = self.ev(base_node.value)
            cur = t.tr(self.fz(bb))
            new = t.tr(t.store(cur, self.key(idx), self.fz(v)))
            self.replace(base_node.value, bb, new)
        elif isinstance(base_node, (ast.Name, ast.Attribute)):
            cur = self.fz(self.ev(base_node))
            new = t.store(cur, self.key(idx), self.fz(v)) if t.kind(cur) != "dict" else t.dset(cur, self.key(idx), v)
            r = self.alloc("val", new)
            if isinstance(base_node, ast.Name):
                self.setvar(base_node.id, r)
            else:
                self.setattr(self.ev(base_node.value), base_node.attr, r)
        else:
            raise Undecided("store target")

    def replace(self, node, ref, new):
        if ref.op == "ref" and self.cell(ref).kind in ("val", "view"):
            self.setcell(ref, new)
        elif isinstance(node, ast.Name):
            self.setvar(node.id, self.alloc("val", new))
        else:
            raise Undecided("replace")

    def update(self, b, fn):
        """apply fn to the content of a mutable object"""
        if b.op == "ite":
            self.branch(b.args[0], lambda: self.update(b.args[1], fn), lambda: self.update(b.args[2], fn))
            return
        if b.op == "ref":
            c = self.cell(b)
            if c.kind == "view" or c.val is None:
                raise Undecided("update")
            if c.val.op in ("sym", "attr"):
                self.update(c.val, fn)
                return
            v = fn(c.val)
            self.caller_write(b)
            self.st.put(b.args[0], c.with_val(v))
        elif b.op == "at" and rootstate(b):
            self.store_loc(b.args[0], b.args[1], fn(self.fz(b)))
        elif b.op in ("sym", "attr", "at", "fv", "call", "meth"):
            cur = self.st.over.get(b, b)
            if cur.op == "ref":
                self.update(cur, fn)
            else:
                v = fn(cur)
                self.st.over[b] = v
        else:
            # a value that has lost its identity
            raise Undecided("update of a temporary")

    # control flow -----------------------------------------------------
    def st_If(self, n):
        c = t.truth(self.cond(n.test))
        self.branch(c, lambda: self.exec_block(n.body), lambda: self.exec_block(n.orelse))

    def cond(self, e):
        """value of a condition, as a term usable as a gate"""
        v = self.ev(e)
        return self.truthof(v)

    def truthof(self, v):
        if v.op == "ite":
            return t.ite(v.args[0], self.truthof(v.args[1]), self.truthof(v.args[2]))
        if self.isobj(v):
            c = self.cell(v)
            r = self.try_dunder(v, "__bool__", [])
            if r is not None:
                return self.truthof(r)
            r = self.try_dunder(v, "__len__", [])
            if r is not None:
                return t.not_(t.eq(self.fz(r), ZERO))
            if c.val is None:
                return TRUE
        x = self.fz(v)
        k = self.known.get(x)
        if k is not None:
            x = k
        return self.simplify_cond(t.truth(x))

    def simplify_cond(self, c):
        if not self.known:
            return c
        k = self.known.get(c)
        if k is not None:
            return k
        return c

    def st_While(self, n):
        broken = []
        for it in range(60):
            c = self.decide(self.cond(n.test))
            if c is FALSE:
                break
            if c is not TRUE:
                if it == 0:
                    self.while_sym(n)
                    return self.end_breaks(broken)
                # conditional continuation: unroll under gate
                raise Undecided("while with undecided condition")
            if not self.iteration(lambda: self.exec_block(n.body), broken):
                break
        else:
            raise Undecided("while does not terminate")
        self.end_breaks(broken)

    def iteration(self, fn, broken):
        """run one loop iteration; returns False when nothing continues"""
        fr = self.fr
        saved = fr.exits
        fr.exits = []
        try:
            fn()
            normal = self.st
        except Dead:
            normal = None
        exs = fr.exits
        fr.exits = saved
        notb = [t.not_(g) for g, s in broken]
        absorbed = []
        bg, bs = [], []
        conts = []
        for g, kind, v, st in exs:
            g2 = t.and_(*([g] + [t.not_(a) for a in absorbed]))
            if kind in ("return", "raise"):
                fr.exits.append((t.and_(g2, *notb), kind, v, st))
            else:
                absorbed.append(g)
                if kind == "break":
                    bg.append((g2, st))
                else:
                    conts.append((g, st))
        acc = normal
        for g, st in reversed(conts):
            acc = merge(g, st, acc) if acc is not None else st
        if bg:
            s = None
            for g, st in reversed(bg):
                s = st if s is None else merge(g, st, s)
            broken.append((t.or_(*[g for g, _ in bg]), s))
        self.st = acc
        if acc is None:
            return False
        if bg:
            self.st.assume(t.not_(broken[-1][0]))
        return True

    def end_breaks(self, broken, orelse=None):
        if self.st is not None and orelse:
            saved = self.fr.exits
            self.fr.exits = []
            try:
                self.exec_block(orelse)
            except Dead:
                self.st = None
            notb = [t.not_(g) for g, s in broken]
            saved += [(t.and_(e[0], *notb),) + e[1:] for e in self.fr.exits]
            self.fr.exits = saved
        acc = self.st
        for g, s in reversed(broken):
            acc = s if acc is None else merge(g, s, acc)
        self.st = acc
        if acc is None:
            raise Dead

    def st_Break(self, n):
        self.fr.exits.append((TRUE, "break", NONE, self.st))
        raise Dead

    def st_Continue(self, n):
        self.fr.exits.append((TRUE, "continue", NONE, self.st))
        raise Dead

    def st_For(self, n):
        it = self.ev(n.iter)
        self.loop(it, lambda x: self.assign(n.target, x), lambda: self.exec_block(n.body), n.orelse)

    def segments(self, it):
        """literal elements of an iterable: list of (guard or None, element); None when symbolic"""
        x = self.val(it)
        if self.isobj(x):
            r = self.try_dunder(x, "__iter__", [])
            if r is not None:
                return self.segments(r)
            c = self.cell(x)
            if c.val is not None:
                return self.segments(c.val)
            if self.find_method(x, "__getitem__") is not None and self.find_method(x, "__len__") is not None:
                nlen = self.val(self.try_dunder(x, "__len__", []))
                if t.isint(nlen):
                    return [(None, self.try_dunder(x, "__getitem__", [t.num(i)])) for i in range(int(t.numval(nlen)))]
        if x.op == "instdict":
            c = self.cell(x.args[0])
            return [(None, t.s(k)) for k in c.attrs]
        if x.op in ("list", "tuple"):
            return [(None, a) for a in x.args]
        if x.op == "dict":
            return [(None, a) for a in x.args[::2]]
        if x.op == "array":
            q = self.segments(x.args[0])
            return q if q is None else [(g, mk("array", self.fz(e)) if self.val(e).op == "list" else e) for g, e in q]
        if x.op == "setof":
            q = self.segments(x.args[0])
            return q if q is None else t.anyorder(q)
        if x.op == "str":
            return [(None, t.s(c)) for c in x.args[0]]
        if x.op == "cat":
            out = []
            for p in x.args:
                q = self.segments(p)
                if q is None:
                    return None
                out += q
            return out
        if x.op == "ite":
            a, b = self.segments(x.args[1]), self.segments(x.args[2])
            if a is None or b is None:
                return None
            c = x.args[0]
            # aligned prefix keeps the guards small
            if len(a) == len(b) and all(p[0] is q[0] for p, q in zip(a, b)):
                return [(p[0], t.ite(c, p[1], q[1])) for p, q in zip(a, b)]
            return [(c if g is None else t.and_(c, g), e) for g, e in a] + \
                   [(t.not_(c) if g is None else t.and_(t.not_(c), g), e) for g, e in b]
        if x.op == "dset":
            d, k, v = x.args
            q = self.segments(d)
            if q is None:
                return None
            isin = t.in_(k, d)
            return q + [(None if isin is FALSE else t.not_(isin), k)]
        if x.op == "keys":
            return self.segments(x.args[0]) if x.args[0].op in ("dict", "dset", "instdict") else None
        if x.op in ("values", "items") and x.args[0].op == "dset":
            q = self.segments(x.args[0])
            if q is None:
                return None
            if x.op == "values":
                return [(g, t.dget(x.args[0], k)) for g, k in q]
            return [(g, t.tup(k, t.dget(x.args[0], k))) for g, k in q]
        if x.op == "at":
            sh = self.ext.shape(x)
            if sh.op == "tuple" and sh.args and t.isint(sh.args[0]) and t.numval(sh.args[0]) <= 64:
                return [(None, self.elem(x, t.num(i))) for i in range(int(t.numval(sh.args[0])))]
        return None

    def loop(self, it, bind, body, orelse=None):
        segs = self.segments(it)
        if segs is None:
            x = self.fz(it)
            L = self.known.get(mk("lenof", x))
            if L is None and x.op not in ("ite", "flat"):
                B = self.bound(x)
                L = next((b for b in B if t.isint(b)), None)
            if L is not None and t.isint(L) and t.numval(L) <= 64:
                segs = [(None, self.elem(x, t.num(i))) for i in range(int(t.numval(L)))]
        if segs is None:
            x = self.val(it)
            if x.op == "cat" and any(self.segments(p) is not None for p in x.args):
                # sequential pieces
                broken = []
                for p in x.args:
                    self.loop_piece(p, bind, body, broken)
                    if self.st is None:
                        break
                return self.end_breaks(broken, orelse)
            self.loop_sym(it, bind, body, orelse)
            return
        if len(segs) > 256:
            raise Undecided("loop too long")
        broken = []
        for g, e in segs:
            if g is None:
                def run(e=e):
                    bind(e)
                    body()
            else:
                def run(g=g, e=e):
                    def go():
                        bind(e)
                        body()
                    self.branch(g, go, lambda: None)
            if not self.iteration(run, broken):
                break
        self.end_breaks(broken, orelse)

    def loop_piece(self, p, bind, body, broken):
        segs = self.segments(p)
        if segs is None:
            def f():
                self.loop_sym(p, bind, body, None)
            if not self.iteration(f, broken):
                return
            return
        for g, e in segs:
            def run(g=g, e=e):
                def go():
                    bind(e)
                    body()
                if g is None:
                    go()
                else:
                    self.branch(g, go, lambda: None)
            if not self.iteration(run, broken):
                return

    def elem(self, x, i):
        """i-th element of iterable term x"""
        if x.op == "items":
            k = t.at(t.keys(x.args[0]), i)
            return t.tup(k, t.dget(x.args[0], k))
        if x.op == "values":
            return t.dget(x.args[0], t.at(t.keys(x.args[0]), i))
        if x.op == "zip":
            return t.tup(*[self.elem(a, i) for a in x.args])
        if x.op == "enumerate":
            return t.tup(t.add(i, x.args[1]), self.elem(x.args[0], i))
        if x.op == "range":
            a, b, st = x.args
            return t.add(a, t.mul(st, i))
        if x.op == "mapseq":
            return self.elem(x.args[0], i)
        if x.op == "sym" or x.op == "attr" or x.op == "at" or x.op == "call" or x.op == "meth":
            k = self.known.get(mk("kindof", x))
            if k is not None and k.op == "str" and k.args[0] == "dict":
                return t.at(t.keys(x), i)
        return t.at(x, i)

    def bound(self, x):
        if x.op in ("items", "values", "keys"):
            return [t.len_(t.keys(x.args[0]))]
        if x.op == "zip":
            return [b for a in x.args for b in self.bound(a)]
        if x.op == "enumerate":
            return self.bound(x.args[0])
        if x.op == "range":
            a, b, st = x.args
            if st is ONE:
                return [t.sub(b, a)]
            if t.isint(st):
                return [mk("rangelen", a, b, st)]
            return [mk("rangelen", a, b, st)]
        return [self.arrlen(x)]

    def arrlen(self, x):
        if x.op in ("store", "T", "mono", "poly", "sflat", "zeros", "ones", "eye") or self.known.get(mk("shape", x)) is not None:
            sh = self.ext.shape(x)
            if sh.op == "tuple" and sh.args:
                return sh.args[0]
        k = self.known.get(mk("lenof", x))
        return k if k is not None else t.len_(x)

    # symbolic loops ---------------------------------------------------
    def loop_sym(self, it, bind, body, orelse=None):
        self.fr.abstracted = True
        if not self.loopsym:
            raise Undecided("unbounded loop")
        x = self.fz(it)
        if x.op == "ite":
            def go(y):
                self.loop(y, bind, body, None)
            self.branch(x.args[0], lambda: go(x.args[1]), lambda: go(x.args[2]))
            if orelse:
                self.exec_block(orelse)
            return
        if x.op == "flat":
            # iterate over what the flat is built from
            n = t._singletons(x.args[2])
            if n is None:
                i = t.fresh("i")
                inner = t.open_(x, (i,))
                d = x.args[1]
                self.loop_dom(i, d, lambda: self.loop(inner, bind, body, None))
                if orelse:
                    self.exec_block(orelse)
                return
        i = t.fresh("i")
        e = self.elem(x, i)
        d = t.dom(*self.bound(x))

        def run():
            bind(e)
            body()
        self.loop_dom(i, d, run)
        if orelse:
            self.exec_block(orelse)

    def locs(self, s0, s1):
        """locations whose value changed between two states (only those existing before)"""
        out = []
        for k, c in s1.heap.items():
            c0 = s0.get(k)
            if c0 is None or c0 is c:
                continue
            if c0.val is not c.val and c0.val is not None:
                out.append((k, None))
            if c0.attrs is not c.attrs:
                for name, v in (c.attrs or {}).items():
                    if (c0.attrs or {}).get(name) is not v:
                        out.append((k, name))
        for p, v in s1.over.items():
            if s0.over.get(p, p) is not v and not (p.op == "fv" and p.args[0] == "s"):
                out.append(("over", p))
        if s1.rng is not s0.rng:
            out.append(("rng", None))
        if s1.eff is not s0.eff:
            out.append(("eff", None))
        return out

    def getloc(self, s, loc):
        k, name = loc
        if k == "over":
            return s.over.get(name, name)
        if k == "rng":
            return s.rng
        if k == "eff":
            return s.eff
        c = s.get(k)
        if c is None:
            return None
        return c.val if name is None else (c.attrs or {}).get(name)

    def setloc(self, s, loc, v):
        k, name = loc
        if k == "over":
            s.over[name] = v
        elif k == "rng":
            s.rng = v
        elif k == "eff":
            s.eff = v
        else:
            c = s.get(k)
            s.put(k, c.with_val(v) if name is None else c.with_attr(name, v))

    def loop_dom(self, i, d, run):
        s0 = self.st
        fr = self.fr
        saved = fr.exits
        carried = {}
        for attempt in range(6):
            self.st = s0.fork()
            for loc, sv in carried.items():
                self.setloc(self.st, loc, sv)
            start = self.st.fork()
            fr.exits = []
            try:
                run()
                end = self.st
            except Dead:
                end = None
            exs = fr.exits
            fr.exits = saved
            if end is None and not exs:
                raise Undecided("loop body never completes")
            states = ([end] if end is not None else []) + [e[3] for e in exs if e[1] in ("continue",)]
            new = set()
            for s in states:
                for loc in self.locs(start, s):
                    if loc not in carried and self.getloc(s0, loc) is not None:
                        new.add(loc)
                    elif loc not in carried:
                        # first assigned inside the loop: not loop carried
                        pass
            if not new:
                break
            for loc in sorted(new, key=str):
                carried[loc] = t.fresh("s")
        else:
            raise Undecided("loop does not stabilise")
        # absorb continue
        absorbed = []
        conts = []
        outs = []
        for g, kind, v, st in exs:
            g2 = t.and_(*([g] + [t.not_(a) for a in absorbed]))
            if kind == "continue":
                absorbed.append(g)
                conts.append((g, st))
            else:
                outs.append((g2, kind, v, st))
        acc = end
        for g, st in reversed(conts):
            acc = merge(g, st, acc) if acc is not None else st
        svars = list(carried.values())
        svset = set(svars)
        if outs:
            return self.loop_exits(i, d, s0, carried, outs, acc)
        res = s0.fork()
        fin = {}
        for loc, sv in carried.items():
            nv = self.fzin(acc, self.getloc(acc, loc))
            fin[loc] = nv
        lastval = {}
        unsolved = []
        for loc, sv in carried.items():
            init = self.getloc(s0, loc)
            r = self.solve_rec(i, d, sv, fin[loc], init, svset - {sv}, s0)
            if r is None:
                unsolved.append(loc)
            else:
                lastval[loc] = r
        # locations that depend on other solved ones, e.g. running offsets
        if unsolved:
            m = {}
            for loc in lastval:
                # prefix value at iteration i
                pv = self.prefix(i, d, carried[loc], fin[loc], self.getloc(s0, loc), svset - {carried[loc]}, s0)
                if pv is not None:
                    m[carried[loc]] = pv
            still = []
            for loc in unsolved:
                sv = carried[loc]
                nv = t.subst(fin[loc], m)
                r = self.solve_rec(i, d, sv, nv, self.getloc(s0, loc), (svset - {sv}) - set(m), s0)
                if r is None:
                    still.append(loc)
                else:
                    lastval[loc] = r
            if still:
                svs = [carried[l] for l in still]
                inits = [self.fzin(s0, self.getloc(s0, l)) for l in still]
                news = [t.subst(fin[l], m) for l in still]
                for k, l in enumerate(still):
                    lastval[l] = t.bind("fold", d, i, svs, inits, FALSE, news, k)
        self.st = res
        for loc, v in lastval.items():
            self.setloc(res, loc, v if loc[1] is None or loc[0] in ("over", "rng", "eff") else self.box(v))

    def fzin(self, st, v):
        sv = self.st
        self.st = st
        try:
            return self.fz(v)
        finally:
            self.st = sv

    def solve_rec(self, i, d, sv, nv, init, others, s0):
        fv = t.fvs(nv)
        if fv & others:
            return None
        init_f = self.fzin(s0, init)
        if sv not in fv:
            if nv is init_f:
                return init
            if i not in fv:
                # constant after the first iteration
                return t.ite(self.nonempty(d), nv, init)
            # last value
            if len(d.args) == 1:
                n = d.args[0]
                return t.ite(self.nonempty(d), t.subst(nv, {i: t.sub(n, ONE)}), init)
            return None
        up = self.step(sv, nv)
        if up is None:
            return None
        kind, e = up
        if sv in t.fvs(e):
            return None
        if kind == "add":
            return t.add(init_f, t.bind("sumdom", d, i, e))
        if kind == "cat":
            return t.cat(init_f if init.op == "ref" else init, t.bind("flat", d, i, e))
        if kind == "dset":
            # e: list of (guard, key, val)
            if len(e.args) == 1 and e.args[0].args[0] is TRUE:
                return t.bind("dflat", d, i, e.args[0].args[1], e.args[0].args[2], init)
            return t.bind("fold", d, i, [sv], [init_f], FALSE, [nv], 0)
        if kind == "store":
            return t.bind("sflat", d, i, e, init_f)
        return None

    def nonempty(self, d):
        return t.and_(*[t.not_(t.eq(b, ZERO)) for b in d.args])

    def prefix(self, i, d, sv, nv, init, others, s0):
        return self.solve_rec_over(i, t.dom(i), sv, nv, init, others, s0)

    def solve_rec_over(self, i, d, sv, nv, init, others, s0):
        j = t.fresh("j")
        nv2 = t.subst(nv, {i: j})
        fv = t.fvs(nv2)
        if fv & others or sv not in fv:
            return None
        return self.solve_rec(j, d, sv, nv2, init, others, s0)

    def step(self, sv, nv):
        """decompose nv as sv (+) e"""
        if nv is sv:
            return ("cat", t.lst())
        if nv.op == "ite":
            a, b = self.step(sv, nv.args[1]), self.step(sv, nv.args[2])
            c = nv.args[0]
            if sv in t.fvs(c) or a is None or b is None:
                return None
            ka = a[0] if nv.args[1] is not sv else None
            kb = b[0] if nv.args[2] is not sv else None
            k = ka or kb
            if ka and kb and ka != kb:
                return None
            neutral = {"add": ZERO, "cat": t.lst(), "store": t.lst(), "dset": t.lst()}[k]
            ea = a[1] if ka else neutral
            eb = b[1] if kb else neutral
            if k in ("store", "dset"):
                ga = [mk("gst", t.and_(c, x.args[0]), *x.args[1:]) for x in ea.args]
                gb = [mk("gst", t.and_(t.not_(c), x.args[0]), *x.args[1:]) for x in eb.args]
                return (k, t.lst(*(ga + gb)))
            return (k, t.ite(c, ea, eb))
        if nv.op == "cat":
            if nv.args[0] is sv:
                return ("cat", t.cat(*nv.args[1:]))
            if nv.args[0].op == "ite":
                a = self.step(sv, nv.args[0])
                if a and a[0] == "cat":
                    return ("cat", t.cat(a[1], *nv.args[1:]))
            return None
        if nv.op == "dset":
            if not t.fvs(nv.args[1]):
                return None
            a = self.step(sv, nv.args[0])
            if nv.args[0] is sv:
                a = ("dset", t.lst())
            if a is None or a[0] != "dset":
                return None
            return ("dset", t.lst(*(a[1].args + (mk("gst", TRUE, nv.args[1], nv.args[2]),))))
        if nv.op == "store":
            a = self.step(sv, nv.args[0])
            if nv.args[0] is sv:
                a = ("store", t.lst())
            if a is None or a[0] != "store":
                return None
            # v = at(sv, idx) + e  -> accumulate
            v, idx = nv.args[2], nv.args[1]
            d = t.sub(v, t.at(nv.args[0], idx)) if t.kind(v) not in ("str", "list", "dict", "tuple") else v
            if sv not in t.fvs(d):
                st = mk("gst", TRUE, idx, d, t.s("acc"))
            else:
                st = mk("gst", TRUE, idx, v, t.s("set"))
            return ("store", t.lst(*(a[1].args + (st,))))
        if nv.op in t.ARITH:
            d = t.sub(nv, sv)
            if sv not in t.fvs(d):
                return ("add", d)
            return None
        return None

    def loop_exits(self, i, d, s0, carried, outs, acc):
        """loops that may leave early: conditions must not depend on earlier iterations"""
        svs = set(carried.values())
        for g, kind, v, st in outs:
            if t.fvs(g) & svs or (t.fvs(self.fzin(st, v)) & svs):
                raise Undecided("early exit depends on loop state")
        if acc is not None:
            for loc in carried:
                if self.getloc(acc, loc) is not carried[loc] and not self.is_looplocal(loc):
                    raise Undecided("early exit with state")
        fr = self.fr
        # return / raise exits in order
        cond = t.or_(*[g for g, *_ in outs])
        kinds = {k for _, k, *_ in outs}
        if kinds <= {"return", "raise"} and len(kinds) == 1:
            k = kinds.pop()
            val = None
            for g, kind, v, st in reversed(outs):
                v = self.fzin(st, v)
                val = v if val is None else t.ite(g, v, val)
            anyc = t.truth(t.bind("flat", d, i, t.ite(cond, t.lst(ONE), t.lst())))
            v = t.bind("first", d, i, cond, val, mk("undef")) if k == "return" else val
            if k == "raise" and i in t.fvs(val):
                v = mk("exc", "?")
            fr.exits.append((anyc, k, v, s0.fork()))
            self.st = s0.fork(t.not_(anyc))
            if acc is None and False:
                raise Dead
            return
        raise Undecided("break in symbolic loop")

    def is_looplocal(self, loc):
        # loop targets and temporaries of the enclosing function: assigned before use in the body
        return False

    def while_sym(self, n):
        """while loop with an undecided condition: recognise counting loops, otherwise a wfold"""
        s0 = self.st
        fr = self.fr
        saved = fr.exits
        carried = {}
        for attempt in range(6):
            self.st = s0.fork()
            for loc, sv in carried.items():
                self.setloc(self.st, loc, sv)
            fr.exits = []
            start = self.st.fork()
            try:
                c = self.cond(n.test)
                pre = self.st.fork()
                self.st.assume(c)
                self.exec_block(n.body)
                end = self.st
            except Dead:
                raise Undecided("while body never completes")
            finally:
                exs, fr.exits = fr.exits, saved
            if any(e[1] != "raise" or True for e in exs):
                raise Undecided("while loop with early exit")
            new = [l for l in self.locs(start, end) if l not in carried and self.getloc(s0, l) is not None]
            if not new:
                break
            for loc in sorted(new, key=str):
                carried[loc] = t.fresh("s")
        else:
            raise Undecided("while loop does not stabilise")
        self.st = end
        fin = {loc: self.fzin(end, self.getloc(end, loc)) for loc in carried}
        c = self.fzin(end, c)
        svset = set(carried.values())
        if n.orelse:
            raise Undecided("while-else")
        # counting loop
        for loc, sv in carried.items():
            init = self.getloc(s0, loc)
            if init is None or not t.isint(init) or loc[0] in ("over", "rng", "eff"):
                continue
            if t.sub(fin[loc], sv) is not ONE:
                continue
            if c.op == "pos" and not (t.fvs(t.add(c.args[0], sv)) & svset):
                bound = t.add(c.args[0], sv)
                i = t.fresh("i")
                self.st = s0
                d = t.dom(t.sub(bound, init))

                def run(loc=loc, init=init, i=i):
                    self.setloc(self.st, loc, t.add(init, i))
                    self.exec_block(n.body)
                return self.loop_dom(i, d, run)
        svs = list(carried.values())
        inits = [self.fzin(s0, self.getloc(s0, l)) for l in carried]
        news = [fin[l] for l in carried]
        self.st = s0.fork()
        for k, loc in enumerate(carried):
            self.setloc(self.st, loc, t.bind("wfold", svs, inits, c, news, k))

    # try / with -------------------------------------------------------
    def st_Try(self, n):
        fr = self.fr
        saved = fr.exits
        s0 = self.st.fork()
        outer_f = self.fallible
        self.fallible = []
        fr.exits = []
        if self.optional_import(n, saved, outer_f):
            return
        self.active.append([self.handler_names(h) for h in n.handlers])
        try:
            self.exec_block(n.body)
            normal = self.st
        except Dead:
            normal = None
        finally:
            self.active.pop()
        exs = fr.exits
        fall = self.fallible
        self.fallible = outer_f
        if outer_f is not None:
            outer_f += fall
        if normal is not None and n.orelse:
            self.st = normal
            fr.exits = []
            try:
                self.exec_block(n.orelse)
                normal = self.st
            except Dead:
                normal = None
            exs = exs + fr.exits
        hnames = [self.handler_names(h) for h in n.handlers]
        keep = []
        caught = []
        for e in exs:
            if e[1] == "raise":
                k = self.match_handler(e[2], hnames)
                if k is not None:
                    caught.append((t.and_(*([e[0]] + [t.not_(x[0][0]) for x in keep])), k, e[2], e[3]))
                    continue
            keep.append((e, len(caught)))
        # combine: implicit failures first (state: before the body)
        fr.exits = []
        branches = []
        gop = None
        if n.handlers and self.nontrivial_gate(fall):
            names = hnames[0]
            ops = {x for k, x in fall if k == "op"}
            fs = sorted({x for _, x in fall})
            if set(names) <= {"LinAlgError", "CholmodError", "CholmodNotPositiveDefiniteError"} and any(x.op == "fails" for x in ops):
                # only factorisations fail this way: which matrices are factored is what matters
                fs = sorted(x for x in ops if x.op == "fails")
            if fs and all(x.op == "fails" for x in fs):
                gop = t.or_(*[mk("raises", "|".join(sorted(names)), t.tup(x)) for x in fs])
            else:
                gop = mk("raises", "|".join(sorted(names)), t.tup(*fs))
            branches.append((gop, 0, mk("exc", names[0] if names else "Exception"), s0.fork()))
            fr.abstracted = True
        ngop = len(branches)
        for g, k, ex, st in caught:
            branches.append((g, k, ex, st))
        results = []
        for g, k, ex, st in branches:
            st = st.fork(g)
            self.st = st
            fr.exits = []
            h = n.handlers[k]
            fr.handling = getattr(fr, "handling", []) + [ex]
            try:
                if h.name:
                    self.setvar(h.name, ex)
                self.exec_block(h.body)
                results.append((g, self.st, fr.exits))
            except Dead:
                results.append((g, None, fr.exits))
            finally:
                fr.handling = fr.handling[:-1]
        # assemble exits: handlers' exits guarded; kept exits
        out = []
        acc = normal
        notp = []
        for g, st, ex in results:
            for e in ex:
                out.append((t.and_(g, e[0], *notp),) + e[1:])
            if st is not None or True:
                notp.append(t.not_(g))
        for e, nb in keep:
            out.append((t.and_(e[0], *notp[:ngop + nb]),) + e[1:])
        for g, st, ex in reversed(results):
            if st is None:
                continue
            acc = st if acc is None else merge(g, st, acc)
        fr.exits = saved
        # finally
        if n.finalbody:
            out2 = []
            for e in out:
                self.st = e[3].fork()
                fr.exits = []
                try:
                    self.exec_block(n.finalbody)
                    out2 += [(t.and_(e[0], x[0]),) + x[1:] for x in fr.exits]
                    out2.append((e[0], e[1], e[2], self.st))
                except Dead:
                    out2 += [(t.and_(e[0], x[0]),) + x[1:] for x in fr.exits]
            out = out2
            if acc is not None:
                self.st = acc
                fr.exits = []
                try:
                    self.exec_block(n.finalbody)
                    acc = self.st
                except Dead:
                    acc = None
                out += fr.exits
        fr.exits = saved + out
        self.st = acc
        if acc is None:
            raise Dead

    def optional_import(self, n, saved, outer_f):
        """try: import X / except: fallback — take the import, remember that it is optional"""
        if not n.handlers or not all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign)) for s in n.body):
            return False
        if not any(isinstance(s, (ast.Import, ast.ImportFrom)) for s in n.body):
            return False
        fr = self.fr
        fr.exits = saved
        self.fallible = outer_f
        names = []
        for s_ in n.body:
            if isinstance(s_, (ast.Import, ast.ImportFrom)):
                names += [(a.asname or a.name.split(".")[0]) for a in s_.names]
        self.exec_block(n.body)
        # names bound differently by the fallback become "optional"
        s1 = self.st
        self.st = s1.fork()
        fr.exits = []
        try:
            self.exec_block(n.handlers[0].body)
        except (Dead, Undecided):
            self.st = s1
            fr.exits = saved
            return True
        s2 = self.st
        fr.exits = saved
        lib = None
        for s_ in n.body:
            if isinstance(s_, ast.ImportFrom):
                lib = s_.module
            elif isinstance(s_, ast.Import):
                lib = s_.names[0].name
        if lib and lib.split(".")[0] in ("collections", "enterprise", "numpy", "scipy", "importlib", "importlib_resources"):
            self.st = s1
            return True
        c = mk("truth", mk("sym", "available:" + (lib or "?")))
        self.st = merge(c, s1, s2)
        return True

    def handler_names(self, h):
        if h.type is None:
            return ["*"]
        e = h.type
        elts = e.elts if isinstance(e, ast.Tuple) else [e]
        out = []
        for x in elts:
            nm = ast.unparse(x).split(".")[-1]
            out.append("*" if nm in ("Exception", "BaseException") else nm)
        return out

    def match_handler(self, exc, hnames):
        name = exc.args[0]
        chain = [name]
        while chain[-1] in EXC_PARENT:
            chain.append(EXC_PARENT[chain[-1]])
        for k, names in enumerate(hnames):
            if "*" in names or any(c in names for c in chain):
                return k
        return None

    def nontrivial_gate(self, fall):
        return any(k == "op" for k, _ in fall)

    def note(self, kind, x):
        if kind in ("key", "attr"):
            ex = self.exc("KeyError" if kind == "key" else "AttributeError")
            if any(self.match_handler(ex, h) is not None for h in self.active):
                self.raise_(ex, t.not_(t.in_(x.args[1], x.args[0])) if kind == "key" else t.not_(mk("hasattr", *x.args)))
            return
        if self.fallible is not None:
            self.fallible.append((kind, x))

    def st_With(self, n):
        exits_ = []
        for item in n.items:
            v = self.ev(item.context_expr)
            w = v
            if self.isobj(v):
                r = self.try_dunder(v, "__enter__", [])
                if r is not None:
                    w = r
                    exits_.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, w)
        if not exits_:
            self.exec_block(n.body)
            return
        # run __exit__ on every way out
        fr = self.fr
        saved = fr.exits
        fr.exits = []
        try:
            self.exec_block(n.body)
            normal = self.st
        except Dead:
            normal = None
        exs = fr.exits
        out = []
        for e in exs:
            self.st = e[3].fork()
            fr.exits = []
            try:
                for v in reversed(exits_):
                    self.try_dunder(v, "__exit__", [NONE, NONE, NONE])
                out.append((e[0], e[1], e[2], self.st))
            except Dead:
                pass
        self.st = normal
        fr.exits = saved + out
        if normal is None:
            raise Dead
        for v in reversed(exits_):
            self.try_dunder(v, "__exit__", [NONE, NONE, NONE])

    def st_Match(self, n):
        raise Undecided("match statement")

    # ------------------------------------------------------------ names
    def scope_of(self, name):
        env = self.fr.env
        if name in self.fr.globals_:
            return self.fr.mod.env
        first = True
        while env is not None:
            c = self.st.get(env)
            if name in c.attrs and c.attrs[name].op != "undef":
                return env
            env = c.cls
        return None

    def lookup(self, name):
        env = self.scope_of(name)
        if env is None:
            c = self.st.get(self.fr.mod.env)
            if name in c.attrs:
                return c.attrs[name]
            return self.builtin(name)
        v = self.st.get(env).attrs[name]
        if v.op == "ite" and mk("undef") in v.args:
            v = v.args[1] if v.args[2].op == "undef" else v.args[2]
        return v

    def builtin(self, name):
        if name in BUILTINS:
            return mk("bi", name)
        if name in EXCS:
            return mk("ext", name)
        if name == "Ellipsis":
            return ELL
        if name == "NotImplemented":
            return mk("notimpl")
        if self.freenames is not None and not self.unknown(name):
            return self.freenames(name)
        self.raise_(self.exc("NameError"))

    def unknown(self, name):
        """whether no scope that the current function of the package can see binds the name"""
        f, mod = self.fr.func, self.fr.mod
        if f is None or mod is None or mod.tree is None or name in dir(builtins):
            return False
        m = getattr(mod, "scopes", None)
        if m is None:
            m = mod.scopes = scopes(mod.tree)
        own = m.get(f.node)
        if own is None or "*" in own[0]:
            return False
        if name not in own[0]:
            return True
        # a local variable that no statement on this path has set
        return name in own[1] and not self.fr.abstracted and self.fr.env_of_call

    freenames = None
    curline = 0

    def setvar(self, name, v):
        fr = self.fr
        if name in fr.globals_:
            env = fr.mod.env
        elif name in fr.nonlocals:
            env = self.st.get(fr.env).cls
            while env is not None and name not in self.st.get(env).attrs:
                env = self.st.get(env).cls
        else:
            env = fr.env
        self.setvar_env(env, name, v)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided("step limit")
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression " + type(e).__name__)
        return m(e)

    def ev_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELL
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return t.num(v)
        if isinstance(v, str):
            return t.s(v)
        if isinstance(v, bytes):
            return mk("bytes", v)
        if isinstance(v, complex):
            return t.add(t.num(v.real), t.mul(t.num(v.imag), mk("I")))
        raise Undecided("constant")

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_NamedExpr(self, e):
        v = self.alias(self.ev(e.value))
        self.setvar(e.target.id, v)
        return v

    def ev_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                items = self.as_items(v)
                if items is None:
                    out.append(("*", v))
                else:
                    out += [(None, i) for i in items]
            else:
                out.append((None, self.alias(self.ev(x))))
        return out

    def ev_Tuple(self, e):
        it = self.ev_items(e.elts)
        if any(k for k, _ in it):
            return t.cat(*[self.as_list(v) if k else t.lst(v) for k, v in it])
        return t.tup(*[v for _, v in it])

    def ev_List(self, e):
        it = self.ev_items(e.elts)
        if any(k for k, _ in it):
            return t.cat(*[self.as_list(v) if k else t.lst(v) for k, v in it])
        return t.lst(*[v for _, v in it])

    def ev_Set(self, e):
        return t.setof(t.lst(*[self.key(v) for _, v in self.ev_items(e.elts)]))

    def ev_Dict(self, e):
        d = mk("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.dupdate(d, self.ev(v))
            else:
                kk = self.key(self.ev(k))
                d = t.dset(d, kk, self.alias(self.ev(v)))
        return d

    def dupdate(self, d, other):
        o = self.val(other)
        if o.op == "ite":
            return t.ite(o.args[0], self.dupdate(d, o.args[1]), self.dupdate(d, o.args[2]))
        if o.op == "dict":
            for i in range(0, len(o.args), 2):
                d = t.dset(d, o.args[i], o.args[i + 1])
            return d
        if o.op in ("dset",):
            d = self.dupdate(d, o.args[0])
            return t.dset(d, o.args[1], o.args[2])
        if o.op in ("list", "tuple"):
            for p in o.args:
                kv = self.as_items(p)
                d = t.dset(d, self.key(kv[0]), kv[1])
            return d
        if d.op == "dict" and not d.args:
            return o
        if o.op == "dflat" and o.args[4].op == "dict" and not o.args[4].args:
            v = t.fresh()
            h = o.args[0]
            m = {t.bv(h): v}
            return t.bind("dflat", o.args[1], v, t.subst(o.args[2], m), t.subst(o.args[3], m), d)
        return mk("dupd", d, o)

    def ev_Lambda(self, e):
        return self.mkfunc(e)

    def ev_Attribute(self, e):
        b = self.ev(e.value)
        return self.getattr(b, e.attr)

    def ev_Starred(self, e):
        raise Undecided("starred")

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return t.slc(*[self.fz(self.ev(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return t.tup(*[self.ev_index(x) for x in s.elts])
        return self.ev(s)

    ev_Slice = ev_index

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        return self.subscript(b, self.ev_index(e.slice))

    def subscript(self, b, idx):
        if b.op == "ite" and not self.isobj(b.args[1]) and t.kind(b.args[1]) not in ("dict", "list", "str") and idx.op != "str":
            r = t._at_where(b, self.key(idx))
            if r is not None:
                return r
        if b.op == "ite":
            return self.branch(b.args[0], lambda: self.subscript(b.args[1], idx), lambda: self.subscript(b.args[2], idx))
        if b.op == "instdict":
            return self.getattr(b.args[0], self.fz(idx).args[0])
        if self.isobj(b):
            r = self.try_dunder(b, "__getitem__", [idx])
            if r is not None:
                return r
            c = self.cell(b)
            if c.val is not None:
                v = self.subscript(c.val, idx)
                return v
            raise Undecided("subscript of object")
        o = pvof(b)
        if isinstance(o, Class):
            return b
        if b in self.ddef:
            return self.ddict_get(b, idx)
        x = self.val(b)
        if x is not b and (x.op == "ite" or self.isobj(x)):
            return self.subscript(x, idx)
        k = self.key(idx)
        kx = t.kind(x)
        if x.op in self.ARR and k.op != "str":
            v = self.ext.lits.of(x)
            if v is not None and v.nd and self.ext.lits.badindex(v.dims, k):
                self.raise_(self.exc("IndexError"))
        if x.op == "rec":
            # structured array
            if k.op == "str":
                if k in x.args[1].args[::2]:
                    return t.dget(x.args[1], k)
                self.raise_(self.exc("ValueError"))
            if t.kind(k) != "str":
                d = x.args[1].args
                d2 = [d[j] if j % 2 == 0 else self.fz(self.subscript(d[j], idx)) for j in range(len(d))]
                if not d2:
                    raise Undecided("structured array without fields")
                return mk("rec", t.len_(d2[1]), mk("dict", *d2))
        if kx == "dict" or x.op in ("keyerror",):
            if x.op == "dict" and k.op in ("str", "ref") and x.args:
                if k in x.args[::2]:
                    return t.dget(x, k)
                if all(t.distinct(k, y) for y in x.args[::2]):
                    self.note("never", x)
                    self.raise_(self.exc("KeyError"))
            elif x.op == "dict" and not x.args:
                self.raise_(self.exc("KeyError"))
            else:
                if x.op == "dict" or x.op == "dset" or x.op == "dflat":
                    c = t.not_(t.in_(k, x))
                    if self.fallible is not None:
                        self.note("key", mk("key", x, k))
            return t.dget(x, k)
        if x.op in ("list", "tuple") and t.isint(k):
            i = int(t.numval(k))
            if -len(x.args) <= i < len(x.args):
                return x.args[i]
            self.raise_(self.exc("IndexError"))
        if x.op in ("list", "tuple", "cat"):
            if x.op == "cat" and t.isint(k) and any(self.match_handler(self.exc("IndexError"), h) is not None for h in self.active):
                n = t.len_(x)
                self.raise_(self.exc("IndexError"), t.not_(t.pos(t.sub(n, k))) if t.numval(k) >= 0 else t.not_(t.nneg(t.add(n, k))))
            return t.at(x, k)
        xx = self.fz(x)
        if self.fallible is not None and kx == "?" and xx.op not in ("array", "store", "zeros"):
            if k.op not in ("slice", "tuple", "ellipsis"):
                self.note("key", mk("key", xx, k))
        if xx.op == "shape" and k is ZERO:
            return t.len_(xx.args[0])
        if xx.op == "slogdet":
            return self.ext.logdet(xx.args[0]) if k is ONE else mk("at", xx, k)
        if xx.op == "str" and t.isint(k):
            return t.s(xx.args[0][int(t.numval(k))])
        if xx.op == "str" and k.op == "slice" and all(a is NONE or t.isint(a) for a in k.args):
            v = [None if a is NONE else int(t.numval(a)) for a in k.args]
            return t.s(xx.args[0][slice(*v)])
        if k.op == "ones" and self.ndim1(k):
            # boolean mask that selects everything
            return xx
        r = t.at(xx, k)
        kn = self.known.get(r)
        return kn if kn is not None else r

    def ndim1(self, x):
        return self.ext.ndim(x) is t.ONE

    def ev_IfExp(self, e):
        c = self.cond(e.test)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.decide(self.truthof(v))
            if isand:
                if c is TRUE:
                    return go(k + 1)
                if c is FALSE:
                    return v
                vb = c if t.is_bool(v) else v
                if t.is_bool(v):
                    return self.branch(c, lambda: self.boolval(go(k + 1)), lambda: FALSE)
                return self.branch(c, lambda: go(k + 1), lambda: vb)
            if c is TRUE:
                return v
            if c is FALSE:
                return go(k + 1)
            if t.is_bool(v):
                return self.branch(c, lambda: TRUE, lambda: self.boolval(go(k + 1)))
            return self.branch(c, lambda: v, lambda: go(k + 1))
        return go(0)

    def boolval(self, v):
        return v

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return t.not_(self.decide(self.truthof(v)))
        if self.isobj(v):
            nm = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[type(e.op).__name__]
            r = self.try_dunder(v, nm, [])
            if r is not None:
                return r
        x = self.fz(v)
        if x.op in self.ARR and isinstance(e.op, (ast.USub, ast.Invert)):
            r = self.ext.lits.map(x, t.neg if isinstance(e.op, ast.USub) else lambda c: t.not_(c) if t.is_bool(c) else mk("invert", c))
            if r is not None:
                return r
        if isinstance(e.op, ast.USub):
            return t.neg(x)
        if isinstance(e.op, ast.UAdd):
            return x
        if isinstance(e.op, ast.Invert):
            return t.not_(x) if t.is_bool(x) else mk("invert", x)

    def ev_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
              "Div": ("__truediv__", "__rtruediv__"), "MatMult": ("__matmul__", "__rmatmul__"), "Pow": ("__pow__", "__rpow__")}

    def binop(self, op, a, b):
        nm = type(op).__name__
        if a.op == "ite" and (self.refish(a)):
            return self.branch(a.args[0], lambda: self.binop(op, a.args[1], b), lambda: self.binop(op, a.args[2], b))
        if b.op == "ite" and (self.refish(b)):
            return self.branch(b.args[0], lambda: self.binop(op, a, b.args[1]), lambda: self.binop(op, a, b.args[2]))
        oa, ob = pvof(a), pvof(b)
        if isinstance(oa, Class) or isinstance(ob, Class):
            d = self.DUNDER.get(nm)
            if isinstance(oa, Class) and d:
                m = self.metamethod(a, d[0])
                if m is not None:
                    return self.call(m, [a, b], {})
            if isinstance(ob, Class) and d:
                m = self.metamethod(b, d[1])
                if m is not None:
                    return self.call(m, [b, a], {})
            self.raise_(self.exc("TypeError"))
        if self.isobj(a) or self.isobj(b):
            d = self.DUNDER.get(nm)
            if d:
                if self.isobj(a):
                    r = self.try_dunder(a, d[0], [b])
                    if r is not None and r.op != "notimpl":
                        return r
                if self.isobj(b):
                    r = self.try_dunder(b, d[1], [a])
                    if r is not None and r.op != "notimpl":
                        return r
            wrap = None
            for x in (a, b):
                if self.isobj(x):
                    c = self.cell(x)
                    if c.val is not None:
                        wrap = wrap or c.cls
                    else:
                        self.raise_(self.exc("TypeError"))
            r = self.arith(nm, self.fz(a), self.fz(b))
            return self.alloc("obj", r, {}, wrap)
        return self.arith(nm, self.fz2(a), self.fz2(b))

    def fz2(self, x):
        """freeze for arithmetic but keep references inside lists"""
        v = self.val(x)
        if t.kind(v) in ("list", "tuple", "dict"):
            return v
        return self.fz(x)

    def refish(self, x):
        if x.op == "ref":
            return self.isobj(x) or (self.cell(x) is not None and t.kind(self.val(x)) in ("list", "dict", "tuple"))
        if x.op in ("pv",):
            return True
        if x.op == "ite":
            return self.refish(x.args[1]) or self.refish(x.args[2])
        return t.kind(x) in ("list", "tuple", "dict") and False

    ARR = ("array", "zeros", "ones", "eye", "diag")

    def arith(self, nm, a, b):
        if (a.op in self.ARR or b.op in self.ARR) and nm != "MatMult":
            r = self.ext.lits.zip(a, b, lambda p, q: self.arith(nm, p, q))
            if r is not None:
                return r
            if a.op in self.ARR and b.op in self.ARR:
                va, vb = self.ext.lits.of(a), self.ext.lits.of(b)
                if va is not None and vb is not None and self.ext.lits.mismatch(va.dims, vb.dims):
                    self.raise_(self.exc("ValueError"))
        ka, kb = t.kind(a), t.kind(b)
        if nm == "Add":
            if ka == "str" or kb == "str":
                if ka != kb and {ka, kb} & {"num", "bool", "none", "list", "tuple", "dict"}:
                    for x, f in ((a, lambda z: self.arith("Add", z, b)), (b, lambda z: self.arith("Add", a, z))):
                        if x.op == "ite":
                            return self.branch(x.args[0], lambda: f(x.args[1]), lambda: f(x.args[2]))
                    self.raise_(self.exc("TypeError"))
                return t.scat(a, b)
            if ka == "tuple" and kb == "tuple":
                return t.tup(*(a.args + b.args))
            if ka in ("list", "tuple") or kb in ("list", "tuple"):
                for x, y, f in ((a, b, lambda p, q: self.arith("Add", p, q)), (b, a, lambda p, q: self.arith("Add", q, p))):
                    if x.op == "ite" and t.kind(x) != "list":
                        return t.ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
                if (ka in ("list", "tuple") and kb in ("num", "bool")) or (kb in ("list", "tuple") and ka in ("num", "bool")):
                    self.raise_(self.exc("TypeError"))
                return t.cat(a, b)
            if ka == "dict" or kb == "dict":
                self.raise_(self.exc("TypeError"))
            for x, y in ((a, b), (b, a)):
                if x.op == "zeros" or self.ext.zerolit(x, y):
                    return y
            return t.add(a, b)
        if nm == "Sub":
            if ka == "set" or kb == "set":
                return self.ext.setop("difference", a, b)
            if b.op == "zeros" or self.ext.zerolit(b, a):
                return a
            return t.sub(a, b)
        if nm == "Mult":
            for x, y, kx in ((a, b, ka), (b, a, kb)):
                if kx in ("list", "tuple") and t.isint(y):
                    return mk(x.op, *(x.args * max(0, int(t.numval(y))))) if x.op in ("list", "tuple") else mk("rep", x, y)
                if kx == "str" and x.op == "str" and t.isint(y):
                    return t.s(x.args[0] * int(t.numval(y)))
                if kx in ("list", "tuple", "str"):
                    if kx == "str" or t.kind(y) in ("num", "?"):
                        return mk("rep", x, y)
            return self.ext.dropones(t.mul(a, b))
        if nm == "Div":
            return self.ext.dropones(t.div(a, b))
        if nm == "Pow":
            return self.ext.dropones(t.pow_(a, b))
        if nm == "MatMult":
            return self.ext.dot(a, b)
        if nm == "FloorDiv":
            if t.isint(a) and t.isint(b) and t.numval(b):
                return t.num(t.numval(a) // t.numval(b))
            r = self.ext.lits.zip(a, b, fold.floorq) if "array" in (a.op, b.op) and numeric(a) and numeric(b) else None
            if r is None and a.op == b.op == "num" and t.numval(b):
                r = fold.floorq(a, b)
            return mk("floordiv", a, b) if r is None else r
        if nm == "Mod":
            if ka == "str":
                return self.ext.percent(a, b)
            if t.isint(a) and t.isint(b) and t.numval(b):
                return t.num(t.numval(a) % t.numval(b))
            r = self.ext.lits.zip(a, b, fold.modq) if "array" in (a.op, b.op) and numeric(a) and numeric(b) else None
            if r is None and a.op == b.op == "num" and t.numval(b):
                r = fold.modq(a, b)
            return mk("mod", a, b) if r is None else r
        if nm in ("BitAnd", "BitOr", "BitXor"):
            if ka == "set" or kb == "set":
                return self.ext.setop({"BitAnd": "intersection", "BitOr": "union", "BitXor": "symmetric_difference"}[nm], a, b)
            if nm == "BitAnd" and (t.is_bool(a) or t.is_bool(b)):
                return t.and_(self.as_bool(a), self.as_bool(b))
            if nm == "BitOr" and (t.is_bool(a) or t.is_bool(b)):
                return t.or_(self.as_bool(a), self.as_bool(b))
            if nm == "BitOr" and ka == "dict":
                return self.dupdate(a, b)
            x, y = sorted((a, b))
            return mk("bit" + nm, x, y)
        raise Undecided("operator " + nm)

    def as_bool(self, x):
        return x if t.is_bool(x) else mk("truth", x)

    def ev_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            res = c if res is None else (t.and_(res, c) if t.is_bool(res) and t.is_bool(c) else mk("and", res, c))
            left = right
        return res

    def compare(self, op, a, b):
        nm = type(op).__name__
        if nm in ("Is", "IsNot"):
            c = self.is_(a, b)
            return c if nm == "Is" else t.not_(c)
        if nm in ("In", "NotIn"):
            c = self.contains(a, b)
            return c if nm == "In" else t.not_(c)
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and self.refish(x):
                return self.branch(x.args[0], lambda: self.compare(op, x.args[1], y) if x is a else self.compare(op, y, x.args[1]),
                                   lambda: self.compare(op, x.args[2], y) if x is a else self.compare(op, y, x.args[2]))
        if (self.isobj(a) or self.isobj(b)):
            d = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "Gt": "__gt__"}.get(nm)
            if self.isobj(a) and d:
                r = self.try_dunder(a, d, [b])
                if r is not None:
                    return r
            if nm in ("Eq", "NotEq"):
                ca, cb = self.objval(a), self.objval(b)
                if ca is None or cb is None:
                    r = TRUE if a is b else FALSE
                    return r if nm == "Eq" else t.not_(r)
        x, y = self.fz(a), self.fz(b)
        kn = self.known
        if kn:
            x, y = kn.get(x, x), kn.get(y, y)
        if x.op in self.ARR or y.op in self.ARR:
            r = self.ext.lits.zip(x, y, lambda p, q: self.compare(op, p, q))
            if r is not None:
                return r
        if nm == "Eq":
            c = t.eq(x, y)
        elif nm == "NotEq":
            c = t.not_(t.eq(x, y))
        elif nm == "Lt":
            c = t.lt(x, y)
        elif nm == "LtE":
            c = t.le(x, y)
        elif nm == "Gt":
            c = t.lt(y, x)
        elif nm == "GtE":
            c = t.le(y, x)
        else:
            raise Undecided("comparison")
        return self.known.get(c, c)

    def objval(self, a):
        if self.isobj(a):
            return self.cell(a).val
        return a

    def is_(self, a, b):
        if a.op == "ite":
            return t.ite(a.args[0], self.is_(a.args[1], b), self.is_(a.args[2], b))
        if b.op == "ite":
            return t.ite(b.args[0], self.is_(a, b.args[1]), self.is_(a, b.args[2]))
        if a.op == "ref" or b.op == "ref":
            if a is b:
                return TRUE
            if a.op == "ref" and b.op == "ref":
                return FALSE
            r, o = (a, b) if a.op == "ref" else (b, a)
            c = self.cell(r)
            if c.kind == "val" and c.val.op in ("sym", "attr", "at", "call", "meth", "ite"):
                return self.is_(self.val(r), o)
            if c.kind == "view":
                return FALSE
            if o in (NONE, TRUE, FALSE) or o.op in ("str", "num", "pv"):
                return FALSE
            return FALSE
        x, y = self.val(a), self.val(b)
        r = t.is_(x, y)
        if r in (TRUE, FALSE):
            return r
        k = self.known.get(r)
        if k is not None:
            return k
        for p, q in ((x, y), (y, x)):
            if q is NONE:
                z = p
                while z.op in ("at", "T", "array"):
                    z = z.args[0]
                    kd = self.known.get(mk("kindof", z))
                    if kd is not None and kd.args[0] == "arr":
                        return FALSE
        for p, q in ((x, y), (y, x)):
            if q is NONE or q is TRUE or q is FALSE or q.op == "str":
                if mk("kindof", p) in self.known and not (q.op == "str" and self.known[mk("kindof", p)].args[0] == "str"):
                    return FALSE
        return r

    def contains(self, k, d):
        if d.op == "ite":
            return t.ite(d.args[0], self.contains(k, d.args[1]), self.contains(k, d.args[2]))
        if d.op == "instdict":
            kk = self.fz(k)
            if kk.op == "str":
                c = self.cell(d.args[0])
                return TRUE if kk.args[0] in c.attrs else FALSE
            raise Undecided("in __dict__")
        if self.isobj(d):
            r = self.try_dunder(d, "__contains__", [k])
            if r is not None:
                return self.truthof(r)
            c = self.cell(d)
            if c.val is None:
                raise Undecided("in object")
            d = c.val
        x = self.val(d)
        if x.op == "ite":
            return t.ite(x.args[0], self.contains(k, x.args[1]), self.contains(k, x.args[2]))
        kk = self.key(k)
        if x.op in ("list", "tuple"):
            return t.or_(*[self.eqv(kk, y) for y in x.args])
        if x.op == "keyerror":
            return FALSE
        c = t.in_(kk, x if t.kind(x) == "dict" else self.fz(x))
        return self.known.get(c, c)

    def eqv(self, k, y):
        y = self.key(y)
        if k.op == "ref" or y.op == "ref":
            return TRUE if k is y else FALSE
        return t.eq(k, y)

    def ev_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(t.s(v.value))
            else:
                x = self.tostr(self.ev(v.value))
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev_JoinedStr(v.format_spec)
                    spec = sp.args[0] if sp.op == "str" else "?"
                conv = "" if v.conversion in (-1, 115) else chr(v.conversion)
                parts.append(x if not spec and not conv else mk("strf", spec + "!" + conv, self.fz(x)))
        return t.scat(*parts) if parts else t.s("")

    def tostr(self, v):
        if self.isobj(v):
            r = self.try_dunder(v, "__str__", [])
            if r is None:
                r = self.try_dunder(v, "__repr__", [])
            return r if r is not None else mk("strf", "obj", t.s(pvof(self.cell(v).cls).name))
        x = self.fz(v)
        if x in (NONE, TRUE, FALSE):
            return t.s({NONE: "None", TRUE: "True", FALSE: "False"}[x])
        if x.op == "pv":
            return mk("strf", "repr", t.s(pvof(x).name if hasattr(pvof(x), "name") else "?"))
        return x

    def ev_FormattedValue(self, e):
        return self.tostr(self.ev(e.value))

    # comprehensions
    def comp(self, gens, emit):
        """run nested comprehension loops in a child scope"""
        env = self.newenv(self.fr.env)
        fr = self.fr
        saved_env = fr.env
        fr.env = env

        def level(k):
            if k == len(gens):
                emit()
                return
            g = gens[k]
            if k == 0:
                fr.env = saved_env
                it = self.ev(g.iter)
                fr.env = env
            else:
                it = self.ev(g.iter)

            def body():
                def ifs(j):
                    if j == len(g.ifs):
                        level(k + 1)
                    else:
                        c = self.cond(g.ifs[j])
                        self.branch(c, lambda: ifs(j + 1), lambda: None)
                ifs(0)
            self.loop(it, lambda x: self.assign(g.target, x), body)
        try:
            level(0)
        finally:
            fr.env = saved_env

    def ev_ListComp(self, e):
        r = self.alloc("val", t.lst())

        def emit():
            v = self.alias(self.ev(e.elt))
            self.st.put(r.args[0], Cell("val", t.cat(self.cell(r).val, t.lst(v))))
        self.comp(e.generators, emit)
        return self.cell(r).val

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        v = self.ev_ListComp(e)
        return self.ext.mkset(v)

    def ev_DictComp(self, e):
        r = self.alloc("val", mk("dict"))

        def emit():
            k = self.key(self.ev(e.key))
            v = self.alias(self.ev(e.value))
            self.st.put(r.args[0], Cell("val", t.dset(self.cell(r).val, k, v)))
        self.comp(e.generators, emit)
        return self.cell(r).val

    def ev_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        y = self.fr.yields
        self.st.put(y.args[0], Cell("val", t.cat(self.cell(y).val, t.lst(v))))
        return NONE

    def ev_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.fr.yields
        self.st.put(y.args[0], Cell("val", t.cat(self.cell(y).val, self.as_list(v))))
        return NONE

    def as_list(self, v):
        """contents of an iterable as a list term"""
        w = self.val(v)
        if w.op == "ite" and t.kind(w) == "list" and not self.isobj(v):
            w = self.fz(w)
            return t.ite(w.args[0], self.as_list(w.args[1]), self.as_list(w.args[2])) if w.op == "ite" else self.as_list(w)
        segs = self.segments(v)
        if segs is not None:
            return t.cat(*[t.lst(e) if g is None else t.ite(g, t.lst(e), t.lst()) for g, e in segs])
        x = self.fz(v)
        if x.op == "ite":
            return t.ite(x.args[0], self.as_list(x.args[1]), self.as_list(x.args[2]))
        if t.kind(x) == "list" and x.op not in ("keys", "values", "items"):
            return x
        if x.op in ("zip", "enumerate", "range", "items", "values", "keys"):
            i = t.fresh("i")
            return t.bind("flat", t.dom(*self.bound(x)), i, t.lst(self.elem(x, i)))
        k = self.known.get(mk("lenof", x))
        if k is not None and t.isint(k):
            return t.lst(*[self.elem(x, t.num(i)) for i in range(int(t.numval(k)))])
        return mk("mapseq", x)

    # ------------------------------------------------------------ calls
    def ev_Call(self, e):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.scope_of("super") is None:
            return self.mksuper(e)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            c = self.st.get(self.fr.env)
            return self.box(t.dct(*[x for k, v in c.attrs.items() for x in (t.s(k), v)]))
        f = self.ev(e.func)
        if self.ignored(f):
            return NONE
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                segs = self.segments(v)
                if segs is not None and all(g is None for g, _ in segs):
                    args += [x for _, x in segs]
                else:
                    x = self.fz(v)
                    k = self.known.get(mk("lenof", x))
                    if k is not None and t.isint(k):
                        args += [self.elem(x, t.num(i)) for i in range(int(t.numval(k)))]
                    else:
                        args.append(mk("star", self.as_list(v) if segs is not None else x))
            else:
                args.append(self.alias(self.ev(a)))
        for k in e.keywords:
            if k.arg is None:
                self.expand_kw(self.ev(k.value), kw)
            else:
                kw[k.arg] = self.alias(self.ev(k.value))
        return self.call(f, args, kw, node=e)

    def expand_kw(self, v, kw):
        x = self.val(v)
        if x.op == "dict":
            for i in range(0, len(x.args), 2):
                k = x.args[i]
                if k.op != "str":
                    raise Undecided("** with symbolic keys")
                kw[k.args[0]] = x.args[i + 1]
            return
        if x.op == "dset" and x.args[1].op == "str":
            self.expand_kw(x.args[0], kw)
            kw[x.args[1].args[0]] = x.args[2]
            return
        if x.op == "ite":
            segs = self.segments(x)
            if segs is not None:
                for g, k in segs:
                    if k.op != "str":
                        raise Undecided("** with symbolic keys")
                    g1 = t.in_(k, x)
                    kw[k.args[0]] = t.ite(g1, t.dget(x, k), mk("absent")) if g1 is not TRUE else t.dget(x, k)
                return
        if "**" in kw:
            raise Undecided("two symbolic **")
        kw["**"] = self.fz(v)

    def ignored(self, f):
        if f.op == "meth_of":
            b, nm = f.args
            if b.op == "call" and b.args[0] == "logging.getLogger":
                return True
        if f.op == "ext" and f.args[0].startswith(("logging.", "warnings.")) and f.args[0] != "logging.getLogger":
            return True
        if f.op == "bi" and f.args[0] == "print":
            return True
        return False

    def mksuper(self, e):
        if e.args:
            c = self.ev(e.args[0])
            o = self.ev(e.args[1])
        else:
            c = self.fr.cls
            o = self.lookup(self.fr.selfname)
        return newpv(Super(c, o))

    def call(self, f, args, kw, node=None):
        if f.op == "ite":
            return self.branch(f.args[0], lambda: self.call(f.args[1], args, kw, node), lambda: self.call(f.args[2], args, kw, node))
        if f.op == "pv":
            o = PV[f.args[0]]
            if isinstance(o, Func):
                return self.call_func(f, o, args, kw)
            if isinstance(o, Bound):
                return self.call(o.func, [o.self_] + args, kw, node)
            if isinstance(o, Class):
                return self.instantiate(f, o, args, kw)
            if isinstance(o, Partial):
                k2 = dict(o.kw)
                k2.update(kw)
                return self.call(o.f, o.args + args, k2, node)
            if isinstance(o, Wrap):
                if o.kind == "property" and False:
                    pass
                return self.call(o.f, args, kw, node)
            raise Undecided("call of " + type(o).__name__)
        if f.op == "ref":
            if self.isobj(f):
                m = self.find_method(f, "__call__")
                if m is not None:
                    return self.call(m, [f] + args, kw, node)
                c = self.cell(f)
                if c.val is not None:
                    return self.call(c.val, args, kw, node)
                self.raise_(self.exc("TypeError"))
            return self.call(self.val(f), args, kw, node)
        if f.op == "bi":
            return self.ext.call_builtin(f.args[0], args, kw)
        if f.op == "ext":
            return self.ext.call_ext(f.args[0], args, kw)
        if f.op == "obsfn":
            return self.obsgiven(f.args[0], args, kw)
        if f.op == "setter":
            pv, base = PV[f.args[0].args[0]], None
            return newpv(Wrap("property", pv.f, args[0]))
        if f.op == "meth_of":
            return self.ext.call_method(f.args[0], f.args[1], args, kw)
        if f.op == "none":
            self.raise_(self.exc("TypeError"))
        if f.op == "wraps":
            w, src = args[0], f.args[0]
            o = pvof(w)
            so = pvof(src)
            if isinstance(o, Func):
                o.wrapped = src
                if isinstance(so, Func):
                    o.pname = getattr(so, "pname", so.name)
                c = self.st.get(src.args[0]) if src.op == "pv" else None
                if c is not None and c.kind == "fattr":
                    self.st.put(w.args[0], Cell("fattr", None, dict(c.attrs), None))
            return w
        if f.op == "addmeta":
            pvof(args[0]).meta = f.args[0]
            return args[0]
        if f.op == "identdeco":
            return args[0]
        if f.op == "attrgetter":
            return self.getattr(args[0], f.args[0].args[0])
        f = self.fz(f)
        if f.op == "lam":
            return t.open_(f, [self.fz(a) for a in args])
        if f.op == "cho":
            return self.ext.solve(f.args[0], self.fz(args[0]))
        if f.op == "attr" and f.args[0].op == "call" and f.args[0].args[0] == "logging.getLogger":
            return NONE
        return self.ext.opaque("apply", [f] + [self.arg(a) for a in args], {k: self.arg(v) for k, v in kw.items()})

    def arg(self, a):
        """argument of an opaque operation"""
        x = self.fz(a)
        if x.op == "pv":
            return self.pvname(x)
        return x

    def mkdefaultdict(self, factory):
        r = self.alloc("val", mk("dict"))
        if factory is not NONE:
            self.ddef[r] = factory
        return r

    def ddict_get(self, b, idx):
        """subscript of a defaultdict: a missing key is created"""
        x, k = self.val(b), self.key(idx)
        c = self.contains_dict(k, x)

        def make():
            v = self.call(self.ddef[b], [], {})
            self.store_sub(b, idx, v)
            return v
        if c is TRUE:
            return t.dget(x, k)
        if c is FALSE:
            return make()
        return self.branch(c, lambda: t.dget(x, k), make)

    def contains_dict(self, k, x):
        if x.op == "dict":
            ks = x.args[::2]
            if k in ks:
                return TRUE
            if all(t.distinct(k, y) for y in ks):
                return FALSE
        return self.decide(t.in_(k, x))

    def pvname(self, x):
        o = pvof(x)
        if isinstance(o, (Func, Class)):
            return mk("pub", o.qual)
        if isinstance(o, Mod):
            return mk("pub", o.name)
        if isinstance(o, Bound):
            return mk("bound", self.pvname(o.func), self.fz(o.self_))
        return x

    def find_method(self, obj, name):
        c = self.cell(obj)
        if c is None or c.cls is None:
            return None
        v = self.class_attr(c.cls, name)
        return v

    def class_attr(self, clspv, name, after=None):
        cls = pvof(clspv)
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for b in mro:
            o = pvof(b)
            if isinstance(o, Class):
                cell = self.st.get(b.args[0])
                if cell is not None and name in cell.attrs:
                    v = cell.attrs[name]
                    if v.op != "undef":
                        if v.op == "ite" and mk("undef") in v.args:
                            raise Undecided("conditional class attribute")
                        return v
        return None

    def ext_base(self, clspv):
        for b in pvof(clspv).mro:
            if not isinstance(pvof(b), Class) and b.op in ("ext", "bi") and b.args[0] not in ("object", "type"):
                return b
            if b.op in ("sym", "attr"):
                return b
        return None

    def nparray_base(self, clspv):
        b = self.ext_base(clspv)
        return b is not None and b.op == "ext" and b.args[0] in ("np.ndarray", "numpy.ndarray")

    def metamethod(self, clspv, name):
        for b in pvof(clspv).mro:
            o = pvof(b)
            if isinstance(o, Class) and o.meta is not None:
                return self.class_attr(o.meta, name)
        return None

    def metaof(self, clspv):
        for b in pvof(clspv).mro:
            o = pvof(b)
            if isinstance(o, Class) and o.meta is not None:
                return o.meta
        return None

    def try_dunder(self, obj, name, args):
        if not name or not self.isobj(obj):
            return None
        m = self.find_method(obj, name)
        if m is None:
            return None
        return self.call(m, [obj] + args, {})

    def instantiate(self, f, cls, args, kw):
        if any(b.op == "ext" and b.args[0] in EXCS for b in cls.mro):
            return mk("exc", cls.name)
        new = self.class_attr(f, "__new__")
        if new is not None:
            fn = pvof(new)
            if isinstance(fn, Wrap):
                new = fn.f
            obj = self.call(new, [f] + args, kw)
            if not self.isobj(obj):
                return obj
        else:
            obj = self.alloc("obj", None, {}, f)
            eb = self.ext_base(f)
            if eb is not None:
                self.st.put(obj.args[0], Cell("obj", mk("sub", eb), {}, f))
        init = self.class_attr(f, "__init__")
        if init is not None:
            self.call(init, [obj] + args, kw)
        else:
            eb = self.ext_base(f)
            if eb is not None and new is None:
                v = self.call(eb, args, kw)
                self.st.put(obj.args[0], Cell("obj", self.fz(v), {}, f))
        return obj

    # attributes
    def getattr(self, b, name, default=None):
        if b.op == "ite":
            return self.branch(b.args[0], lambda: self.getattr(b.args[1], name, default), lambda: self.getattr(b.args[2], name, default))
        if b.op == "pv":
            return self.getattr_pv(b, name, default)
        if b.op == "ref":
            c = self.cell(b)
            if c.kind == "obj":
                return self.getattr_obj(b, c, name, default)
            x = self.val(b)
            if x.op == "ite" and c.kind == "val":
                def arm(y):
                    if y.op in ("ref", "pv"):
                        return self.getattr(y, name, default)
                    self.st.put(b.args[0], self.cell(b).with_val(y))
                    return self.getattr(b, name, default)
                return self.branch(x.args[0], lambda: arm(x.args[1]), lambda: arm(x.args[2]))
            if x.op == "ite" or self.isobj(x):
                return self.getattr(x, name, default)
            return self.ext.getattr_val(b, x, name, default)
        if b.op == "ext":
            return self.getattr_ext(b, name)
        if b.op == "bi":
            return ext("builtins." + b.args[0] + "." + name)
        if b.op == "slice" and name in ("start", "stop", "step", "indices"):
            return mk("meth_of", b, name) if name == "indices" else b.args[("start", "stop", "step").index(name)]
        return self.ext.getattr_val(b, self.val(b), name, default)

    def getattr_obj(self, b, c, name, default=None):
        if name == "__dict__":
            return mk("instdict", b)
        if name == "__class__":
            return c.cls
        v = self.class_attr(c.cls, name)
        if v is not None and v.op == "pv":
            o = pvof(v)
            if isinstance(o, Wrap) and o.kind == "property":
                if default is None:
                    return self.call(o.f, [b], {})
                # getattr with default swallows AttributeError only
                return self.call(o.f, [b], {})
        if name in c.attrs and c.attrs[name].op != "undef":
            a = c.attrs[name]
            def pick(a):
                if a.op == "undef":
                    return self.getattr_miss(b, c, name, default, v)
                if a.op == "ite" and mayundef(a):
                    return self.branch(a.args[0], lambda: pick(a.args[1]), lambda: pick(a.args[2]))
                return a
            return pick(a)
        return self.getattr_miss(b, c, name, default, v)

    def getattr_miss(self, b, c, name, default, v):
        if v is not None:
            return self.bindm(v, b, c.cls)
        ga = self.class_attr(c.cls, "__getattr__")
        if ga is not None:
            return self.call(ga, [b, t.s(name)], {})
        if c.val is not None:
            return self.ext.getattr_val(b, c.val, name, default, obj=True)
        if default is not None:
            return default
        self.raise_(self.exc("AttributeError"))

    def bindm(self, v, obj, clspv):
        if v.op == "ite":
            return t.ite(v.args[0], self.bindm(v.args[1], obj, clspv), self.bindm(v.args[2], obj, clspv))
        o = pvof(v)
        if isinstance(o, Func):
            return newpv(Bound(v, obj))
        if isinstance(o, Wrap):
            if o.kind == "staticmethod":
                return o.f
            if o.kind == "classmethod":
                return newpv(Bound(o.f, clspv))
            if o.kind == "property":
                return self.call(o.f, [obj], {})
            if o.kind == "cached":
                return self.bindm(o.f, obj, clspv)
        return v

    def getattr_pv(self, b, name, default=None):
        o = pvof(b)
        if isinstance(o, Mod):
            self.load(o)
            c = self.st.get(o.env)
            if name in c.attrs:
                return c.attrs[name]
            sub = self.find_module(o.name + "." + name)
            if sub is not None:
                self.load(sub)
                return sub.pv
            if name in ("__version__",):
                return t.sym("__version__")
            if name == "__path__":
                return t.lst(t.sym("path:" + o.name))
            if name == "__file__":
                return t.sym("file:" + o.name)
            if default is not None:
                return default
            self.raise_(self.exc("AttributeError"))
        if isinstance(o, Class):
            if name in ("__name__", "__qualname__"):
                return t.s(o.name)
            if name == "__dict__":
                return mk("instdict", b)
            if name == "__mro__":
                return t.tup(*o.mro)
            v = self.class_attr(b, name)
            if v is not None:
                w = pvof(v)
                if isinstance(w, Wrap):
                    if w.kind == "classmethod":
                        return newpv(Bound(w.f, b))
                    if w.kind == "staticmethod":
                        return w.f
                return v
            m = self.metaof(b)
            if m is not None:
                v = self.class_attr(m, name)
                if v is not None:
                    return self.bindm(v, b, m)
            eb = self.ext_base(b)
            if eb is not None and eb.op == "ext":
                return self.getattr_ext(eb, name)
            if default is not None:
                return default
            if name in ("__class__",):
                return m or mk("bi", "type")
            self.raise_(self.exc("AttributeError"))
        if isinstance(o, Super):
            clsof = self.cell(o.obj).cls if self.isobj(o.obj) else o.obj
            v = self.class_attr(clsof, name, after=o.cls)
            if v is not None:
                return self.bindm(v, o.obj, clsof)
            if name in ("__init__", "__init_subclass__"):
                return mk("bi", "__objinit__") if not self.isobj(o.obj) or self.cell(o.obj).val is None else newpv(Bound(mk("bi", "__extinit__"), o.obj))
            if name == "__new__":
                return mk("bi", "__objnew__")
            return mk("meth_of", mk("superof", o.obj), name)
        if isinstance(o, Func):
            cell = self.st.get(b.args[0])
            if cell is not None and name in cell.attrs:
                return cell.attrs[name]
            if name in ("__name__", "__qualname__"):
                return t.s(getattr(o, "pname", o.name))
            if name == "__doc__":
                return mk("sym", "doc:" + o.qual)
            if name == "__call__":
                return b
            if name == "__wrapped__" and o.wrapped is not None:
                return o.wrapped
            if name in ("__code__", "__defaults__", "__module__", "__dict__"):
                return mk("attr", mk("pub", o.qual), name)
            if default is not None:
                return default
            self.raise_(self.exc("AttributeError"))
        if isinstance(o, Bound):
            if name == "__func__":
                return o.func
            if name == "__self__":
                return o.self_
            return self.getattr_pv(o.func, name, default) if o.func.op == "pv" else mk("attr", b, name)
        if isinstance(o, Wrap):
            if name == "setter":
                return mk("setter", b)
            if name == "fget":
                return o.f
            return self.getattr(o.f, name, default)
        if isinstance(o, Partial):
            if name == "func":
                return o.f
        raise Undecided("attribute " + name)

    def setattr(self, b, name, v):
        v = self.alias(v)
        if b.op == "ite":
            self.branch(b.args[0], lambda: self.setattr(b.args[1], name, v), lambda: self.setattr(b.args[2], name, v))
            return
        if b.op == "ref" and self.isobj(b):
            c = self.cell(b)
            p = self.class_attr(c.cls, name)
            if p is not None and p.op == "pv":
                w = pvof(p)
                if isinstance(w, Wrap) and w.kind == "property":
                    if w.fset is not None:
                        self.call(w.fset, [b, v], {})
                        return
                    self.raise_(self.exc("AttributeError"))
            if not name.startswith("_") and not getattr(self.fr, "qual", "<obs>").startswith("<obs>"):
                k = pvof(c.cls)
                if k is not None and all(q.qual.startswith("<obs>") for q in map(pvof, k.mro) if isinstance(q, Class)):
                    # an object of a class that the calling program defined
                    self.st.mut = self.st.mut | {mk("owned", t.s("object." + name))}
            self.st.put(b.args[0], c.with_attr(name, v))
            return
        if b.op == "pv":
            o = pvof(b)
            if isinstance(o, Mod):
                self.setvar_env(o.env, name, v)
                return
            c = self.st.get(b.args[0])
            if c is None:
                c = Cell("fattr", None, {}, None)
            self.st.put(b.args[0], c.with_attr(name, v))
            return
        if b.op == "ref":
            x = self.val(b)
            if x.op in ("sym", "attr", "fv", "at"):
                b = x
            else:
                raise Undecided("attribute store on value")
        if b.op in ("sym", "attr", "fv", "at", "bv", "call", "meth"):
            self.st.over[mk("attr", b, name)] = v
            return
        raise Undecided("attribute store")

    def hasattr(self, b, name):
        if b.op == "ite":
            return t.ite(b.args[0], self.hasattr(b.args[1], name), self.hasattr(b.args[2], name))
        if self.isobj(b):
            c = self.cell(b)
            if name in c.attrs and c.attrs[name].op != "undef":
                a = c.attrs[name]
                if a.op == "ite" and mk("undef") in a.args:
                    return t.not_(a.args[0]) if a.args[1].op == "undef" else a.args[0]
                return TRUE
            pa = self.class_attr(c.cls, name)
            if pa is not None:
                o = pvof(pa)
                if not (isinstance(o, Wrap) and o.kind == "property"):
                    return TRUE
                # a property: does it raise AttributeError?
                s0 = self.st
                self.st = s0.fork()
                saved, self.fr.exits = self.fr.exits, []
                dead = False
                try:
                    self.getattr(b, name)
                except Dead:
                    dead = True
                ex = [e for e in self.fr.exits if e[1] == "raise"]
                self.fr.exits = saved
                self.st = s0
                if any(e[2].op != "exc" for e in ex):
                    raise Undecided("hasattr of a property")
                bad = t.or_(*[e[0] for e in ex if e[2].args[0] == "AttributeError"])
                return FALSE if dead and all(e[2].args[0] == "AttributeError" for e in ex) and len(ex) == 1 else t.not_(bad)
            ga = self.class_attr(c.cls, "__getattr__")
            if ga is not None:
                # does __getattr__ succeed?
                s0 = self.st
                self.st = s0.fork()
                saved, self.fr.exits = self.fr.exits, []
                try:
                    self.call(ga, [b, t.s(name)], {})
                    ok = [t.not_(e[0]) for e in self.fr.exits if e[1] == "raise"]
                    s1 = self.st
                    r = t.and_(*ok)
                    if r is TRUE:
                        s0 = s1  # effects of the successful look-up persist
                except Dead:
                    r = FALSE
                self.fr.exits = saved
                self.st = s0
                return r
            if c.val is not None:
                v = self.fz(c.val)
                if name not in self.ext.NDNAMES and v.op in ("array", "zeros", "ones", "eye", "diag", "store", "cat"):
                    return FALSE
                return mk("hasattr", v, t.s(name))
            return FALSE
        if b.op == "pv":
            o = pvof(b)
            if isinstance(o, Class):
                if self.class_attr(b, name) is not None or name in ("__call__", "__name__", "__class__"):
                    return TRUE
                m = self.metaof(b)
                return TRUE if m is not None and self.class_attr(m, name) is not None else FALSE
            if isinstance(o, Func) or isinstance(o, (Bound, Partial)):
                cell = self.st.get(b.args[0])
                if cell is not None and name in cell.attrs:
                    return TRUE
                if name == "__wrapped__":
                    return TRUE if isinstance(o, Func) and o.wrapped is not None else FALSE
                return TRUE if name in ("__call__", "__name__", "__doc__", "__module__") else FALSE
            if isinstance(o, Mod):
                return TRUE if name in self.st.get(o.env).attrs else FALSE
            raise Undecided("hasattr")
        x = self.val(b)
        if x is not b and self.isobj(x):
            return self.hasattr(x, name)
        p = mk("attr", x, name)
        if p in self.st.over:
            return FALSE if self.st.over[p].op == "deleted" else TRUE
        return self.ext.hasattr_val(self.fz(x), name)

    # function calls
    def call_func(self, fpv, f, args, kw):
        self.touched.add((f.mod.name, f.qual, getattr(f.node, "lineno", 0)))
        q = f.qual
        if q in self.opaque or (self.depth and False):
            return self.opaque_call(f, args, kw)
        if self.depth > MAXDEPTH:
            raise Undecided("call depth")
        if sum(1 for x in self.callstack if x is f.node) > 6:
            raise Undecided("recursion")
        env = self.newenv(f.env)
        b = self.bind_args(f, args, kw)
        if b is None:
            self.raise_(self.exc("TypeError"))
        fr = Frame(env, f.mod, f, f.cls)
        fr.qual = f.qual
        a = f.node.args
        allp = a.posonlyargs + a.args
        fr.selfname = allp[0].arg if allp else None
        for k, v in b.items():
            self.setvar_env(env, k, v)
        if f.isgen:
            fr.yields = self.alloc("val", t.lst())
        caller = self.fr
        self.fr = fr
        self.depth += 1
        self.callstack.append(f.node)
        facts0 = self.st.facts
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    v = self.ev(f.node.body)
                    acc = (v, self.st)
                else:
                    self.exec_block(f.node.body)
                    acc = (NONE, self.st)
            except Dead:
                acc = None
        except Undecided as e:
            if not getattr(e, "where", None):
                e.where = [(getattr(c, "name", "lambda"), self.curline) for c in self.callstack]
            raise
        finally:
            self.fr = caller
            self.depth -= 1
            self.callstack.pop()
        exits = fr.exits
        prior = []
        out = []
        rets = []
        for g, kind, v, st in exits:
            if kind == "raise":
                out.append((t.and_(g, *[t.not_(p) for p in prior]), "raise", v, st))
            elif kind == "return":
                prior.append(g)
                rets.append((g, v, st))
            else:
                raise Undecided("stray " + kind)
        for g, v, st in reversed(rets):
            if acc is None:
                acc = (v, st)
            else:
                acc = (t.ite(g, v, acc[0]), merge(g, st, acc[1]))
        if caller is not None:
            caller.exits = caller.exits + out
        if acc is None:
            self.st = None
            raise Dead
        v, self.st = acc
        if out:
            for g, *_ in out:
                if g is TRUE:
                    self.st = None
                    raise Dead
                self.st.assume(t.not_(g))
        if f.isgen:
            v = self.cell(fr.yields).val
        return v

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        kw = dict(kw)
        if any(x.op == "star" for x in args):
            i = [k for k, x in enumerate(args) if x.op == "star"][0]
            st = args[i].args[0]
            if i == len(args) - 1 and a.vararg and i >= len(pos):
                b2 = t.cat(t.lst(*args[len(pos):i]), st if t.kind(st) == "list" else mk("mapseq", st))
                for p, v in zip(pos, args[:len(pos)]):
                    b[p] = v
                b[a.vararg.arg] = b2
                args = args[:len(pos)]
            else:
                # take the needed elements
                need = [p for p in pos[i:] if p not in kw]
                args = args[:i] + [t.at(st, t.num(k)) for k in range(len(need))]
        for p, v in zip(pos, args):
            b[p] = v
        extra = args[len(pos):]
        if extra:
            if a.vararg is None:
                return None
            b[a.vararg.arg] = t.tup(*extra)
        elif a.vararg is not None and a.vararg.arg not in b:
            b[a.vararg.arg] = t.tup()
        star = kw.pop("**", None)
        rest = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in b:
                    return None
                b[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                if v.op == "ite" and mk("absent") in v.args:
                    self.raise_(self.exc("TypeError"), v.args[0] if v.args[2].op == "absent" else t.not_(v.args[0]))
                    continue
                return None
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            has_def = i >= len(pos) - nd
            dv = f.defaults[i - (len(pos) - nd)] if has_def else None
            if p in b:
                v = b[p]
                if v.op == "ite" and mk("absent") in v.args:
                    if dv is None:
                        self.raise_(self.exc("TypeError"), v.args[0] if v.args[1].op == "absent" else t.not_(v.args[0]))
                        b[p] = v.args[2] if v.args[1].op == "absent" else v.args[1]
                        continue
                    b[p] = t.ite(v.args[0], v.args[1] if v.args[1].op != "absent" else dv, v.args[2] if v.args[2].op != "absent" else dv)
                continue
            if star is not None and a.kwarg is None or (star is not None and not has_def):
                b[p] = t.dget(star, t.s(p), dv) if has_def else t.at(star, t.s(p))
            elif has_def:
                b[p] = dv if star is None else t.dget(star, t.s(p), dv)
            else:
                return None
        for k in a.kwonlyargs:
            if k.arg not in b:
                if k.arg in f.kwdefaults:
                    b[k.arg] = f.kwdefaults[k.arg]
                else:
                    return None
        if a.kwarg is not None:
            d = star if star is not None else mk("dict")
            for k, v in rest.items():
                if v.op == "ite" and mk("absent") in v.args:
                    d = t.ite(v.args[0], d if v.args[1].op == "absent" else t.dset(d, t.s(k), v.args[1]),
                              d if v.args[2].op == "absent" else t.dset(d, t.s(k), v.args[2]))
                else:
                    d = t.dset(d, t.s(k), v)
            b[a.kwarg.arg] = self.alloc("val", d)
            self.owned.discard(b[a.kwarg.arg].args[0])
        return b

    def opaque_call(self, f, args, kw):
        b = self.bind_args(f, args, kw)
        if b is None:
            self.raise_(self.exc("TypeError"))
        parts = []
        for k in sorted(b):
            v = self.arg(b[k])
            if v.op in ("tuple", "dict") and not v.args and f.node.args.vararg is not None and k == f.node.args.vararg.arg:
                continue
            parts.append(mk("kw", k, v))
        self.note("op", t.s(f.qual))
        return mk("call", "repo:" + f.qual, *parts)


def rootstate(b):
    """element of a loop-carried value"""
    while b.op == "at":
        b = b.args[0]
    return b.op == "fv" and b.args[0] == "s"


def _has_yield(n):
    for x in _walk_scope(n):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_scope(n):
    todo = list(n.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def _has_slice(s):
    return isinstance(s, ast.Slice) or (isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts))


def _basic_index(idx):
    parts = idx.args if idx.op == "tuple" else (idx,)
    return all(p.op in ("slice", "none", "num", "ellipsis", "len", "poly", "mono") for p in parts)
