"""Observations: small client programs evaluated abstractly against a tree; their outcome is a gated value graph."""
import ast

from . import terms as t
from .terms import T, mk, Undecided, NONE, TRUE, FALSE
from .interp import Interp, Frame, Dead, Cell

DEBUG = False
MODS = ["utils", "gp_bases", "gp_priors", "parameter", "selections", "signal_base", "gp_signals", "white_signals",
        "deterministic_signals", "anis_coefficients"]
GIVEN = ("ndim", "shape", "kindof", "attrsof", "assume", "lenof", "snap", "mutable", "outside", "pulsar", "extern")
PSRARR = {"toas": 1, "stoas": 1, "residuals": 1, "toaerrs": 1, "freqs": 1, "backend_flags": 1, "pos": 1, "pos_t": 2, "planetssb": 3,
          "sunssb": 2, "Mmat": 2, "telescope": 1, "pulse_number": 1}
PSRNUM = ("theta", "phi")
PSROTHER = ("pdist", "fitpars", "setpars", "isort", "iisort", "t2pulsar", "parfile", "timfile", "model")


class World:
    def __init__(self, root, package="enterprise", trees=None, other=False):
        self.root = root
        self.other = t.OTHER = other
        self.I = Interp(root, package, trees=trees)
        self.I.load_all()
        self.I.obsgiven = self.given
        env = self.I.newenv(None)
        self.env = env
        put = lambda n, v: self.I.setvar_env(env, n, v)
        for m in MODS:
            mm = self.I.find_module(package + ".signals." + m)
            if mm is not None:
                put(m, mm.pv)
        for n, m in (("pulsar", "pulsar"), ("pulsar_inflate", "pulsar_inflate"), ("const", "constants")):
            mm = self.I.find_module(package + "." + m)
            if mm is not None:
                put(n, mm.pv)
        put("np", mk("ext", "np"))
        put("sps", mk("ext", "scipy.sparse"))
        put("sl", mk("ext", "scipy.linalg"))
        for g in GIVEN:
            put("_" + g, mk("obsfn", g))
        self.I.seal()

    def given(self, name, args, kw):
        I = self.I
        if name == "extern":
            # an external operation replaced by a stand-in of the client program
            I.externs[I.fz(args[0]).args[0]] = args[1]
            return NONE
        a = [I.fz(x) for x in args]
        if name == "ndim":
            I.known[mk("ndim", a[0])] = a[1]
            I.known[mk("kindof", a[0])] = t.s("arr")
        elif name == "shape":
            I.known[mk("shape", a[0])] = a[1]
            if a[1].args:
                I.known[mk("len", a[0])] = I.known[mk("lenof", a[0])] = a[1].args[0]
            I.known[mk("ndim", a[0])] = t.num(len(a[1].args))
            I.known[mk("kindof", a[0])] = t.s("arr")
        elif name == "kindof":
            I.known[mk("kindof", a[0])] = a[1]
            if a[1] is t.s("float"):
                I.known[mk("ndim", a[0])] = t.num(0)
        elif name == "lenof":
            I.known[mk("lenof", a[0])] = a[1]
        elif name == "attrsof":
            I.known[mk("attrsof", a[0])] = mk("names", *a[1:])
        elif name == "assume":
            for x in a:
                c = I.truthof(x)
                cs = c.args if c.op == "and" else (c,)
                for c in cs:
                    if c.op == "eq" or c.op == "not" and c.args[0].op == "eq":
                        t.KNOWN[c if c.op == "eq" else c.args[0]] = TRUE if c.op == "eq" else FALSE
                    I.known[c] = TRUE
                    I.known[t.not_(c)] = FALSE
                    I.st.assume(c)
                    if c.op == "isinst":
                        pass
        elif name == "pulsar":
            p = a[0]
            I.known[mk("kindof", p)] = t.s("obj")
            I.known[mk("attrsof", p)] = mk("names", *[t.s(n) for n in list(PSRARR) + list(PSRNUM) + ["name", "flags", "pdist", "fitpars"]])
            for n, d in PSRARR.items():
                x = mk("attr", p, n)
                I.known[mk("kindof", x)] = t.s("arr")
                I.known[mk("ndim", x)] = t.num(d)
                if d == 1:
                    I.known[mk("shape", x)] = t.tup(t.len_(x))
            for n in PSRNUM:
                I.known[mk("kindof", mk("attr", p, n))] = t.s("float")
            I.known[mk("attr", p, "name")] = a[1] if len(a) > 1 else t.s(p.args[0])
            I.known[mk("kindof", mk("attr", p, "flags"))] = t.s("dict")
            I.known[mk("isinst", p, mk("pub", "parameter.Parameter"))] = FALSE
        elif name == "snap":
            return I.fz(args[0], objs=True)
        elif name == "outside":
            raise Undecided("%s is not part of the stand-in" % t.show(a[0])[:60])
        elif name == "mutable":
            return I.alloc("val", a[0])
        return NONE


class Outcome:
    def __init__(self, ret, raises, over, eff, mut, rng, touched, undecided=None):
        self.ret, self.raises, self.over, self.eff, self.mut, self.rng = ret, raises, over, eff, mut, rng
        self.touched = touched
        self.undecided = undecided


def run(w, src, opaque=(), steps=None):
    I = w.I
    I.reset()
    t.LITS = I.ext.lits
    t.OTHER = w.other
    t.KNOWN.clear()
    I.opaque = frozenset(opaque)
    env = I.newenv(w.env)
    mod = I.mods[I.package]
    fr = Frame(env, mod)
    fr.qual = "<obs>"
    I.fr = fr
    I.freenames = lambda n: t.sym(n)
    tree = ast.parse(src)
    body = list(tree.body)
    if body and isinstance(body[-1], ast.Expr):
        body[-1] = ast.copy_location(ast.Return(body[-1].value), body[-1])
    try:
        try:
            I.exec_block(body)
            acc = (NONE, I.st)
        except Dead:
            acc = None
        rets = [e for e in fr.exits if e[1] == "return"]
        raises = [(e[0], e[2]) for e in fr.exits if e[1] == "raise"]
        for g, k, v, st in reversed(rets):
            I.st = st
            f = I.fz(v, objs=True)
            if acc is None:
                acc = (f, st)
            else:
                from .interp import merge
                acc = (t.ite(g, f, acc[0]), merge(g, st, acc[1]))
        if acc is None:
            ret, st = mk("noreturn"), None
        else:
            ret, st = acc
            ret = I.ext.lits.expand(ret)
        over, eff, mut, rng = {}, None, frozenset(), None
        if st is not None:
            I.st = st
            eff = I.fz(st.eff)
            rng = I.fz(st.rng)
            mut = st.mut
            for k in st.over:
                over[k] = I.ext.lits.expand(I.fz(k, objs=True))
        return Outcome(ret, [(I.fz(g) if st is not None else g, x) for g, x in raises], over, eff, mut, rng, set(I.touched))
    except Undecided as e:
        if DEBUG:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            print("   --", e)
            for f in tb[-8:]:
                print("      ", f.filename.split("/")[-1], f.lineno, f.line[:110])
            print("       at", getattr(e, "where", None))
        return Outcome(None, [], {}, None, frozenset(), None, set(I.touched), str(e) or "undecided")
    except RecursionError:
        return Outcome(None, [], {}, None, frozenset(), None, set(I.touched), "recursion limit")
    finally:
        I.freenames = None
        I.fr = None
