#!/usr/bin/env python3
"""behaviour-preserving rewrites of the whole package, to calibrate the checks (none of them may report a violation)
usage: refactor.py SEED KIND[,KIND...]|all [-p PROB] [-f FILE] [-t] [-k]     writes /tmp/refac_<seed>_<kinds>, runs the checks on it
  -t also runs the stable tests on it;  -k keeps the tree;  -n no checks"""
import ast
import builtins
import copy
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = []


def names(n, ctx=None):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


SCOPES = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)
PURE = (ast.Name, ast.Constant)


class Base(ast.NodeTransformer):
    def __init__(self, rng, p):
        self.rng, self.p, self.n, self.count = rng, p, 0, 0
        self.stack = []

    def yes(self):
        if self.rng.random() < self.p:
            self.count += 1
            return True
        return False

    def tmp(self, stem="tmp"):
        self.n += 1
        return "_%s%d" % (stem, self.n)

    def block(self, body):
        """rewrite of a statement list (inside functions only)"""
        return body

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        self.generic_visit(n)
        n.body = self.blocks(n.body)
        self.stack.pop()
        return n

    def blocks(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f):
                    setattr(s, f, self.blocks(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.blocks(h.body)
        return self.block(body)

    def infunc(self):
        return bool(self.stack)


def ass(name, val):
    return ast.Assign(targets=[ast.Name(name, ast.Store())], value=val)


def ld(name):
    return ast.Name(name, ast.Load())


class ReturnTemp(Base):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, PURE) and self.yes():
                t = self.tmp("res")
                out += [ass(t, s.value), ast.Return(ld(t))]
            else:
                out.append(s)
        return out


class ArgTemp(Base):
    """call arguments computed into temporaries first"""

    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) else None
            if isinstance(s, ast.AugAssign):
                v = None
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and all(k.arg for k in v.keywords) \
                    and isinstance(v.func, (ast.Name, ast.Attribute)) and not (isinstance(v.func, ast.Name) and v.func.id in ("super", "locals", "isinstance", "hasattr")) \
                    and self.yes() and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
                for i, a in enumerate(v.args):
                    if not isinstance(a, PURE + (ast.Lambda,)):
                        t = self.tmp("arg")
                        out.append(ass(t, a))
                        v.args[i] = ld(t)
                for k in v.keywords:
                    if not isinstance(k.value, PURE + (ast.Lambda,)):
                        t = self.tmp("arg")
                        out.append(ass(t, k.value))
                        k.value = ld(t)
            out.append(s)
        return out


class Hoist(Base):
    """a subexpression evaluated unconditionally is computed into a temporary first"""

    def cands(self, e, out):
        for f, v in ast.iter_fields(e):
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.keyword):
                    x = x.value
                if not isinstance(x, ast.expr) or isinstance(x, SCOPES):
                    continue
                if isinstance(e, (ast.BoolOp, ast.IfExp, ast.Compare)) or isinstance(x, (ast.Starred, ast.Slice)):
                    continue
                if isinstance(x, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                    if not (isinstance(e, ast.Call) and e.func is x) and not any(isinstance(y, (ast.Slice,)) for y in ast.walk(x)) and not any(
                            isinstance(y, ast.Name) and y.id in ("super", "np", "sps", "sl", "u", "const", "utils", "parameter", "signal_base") for y in ([x.value] if hasattr(x, "value") else [])):
                        out.append((e, f, x))
                self.cands(x, out)

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and (not isinstance(s, ast.Assign) or all(isinstance(t, ast.Name) for t in s.targets)) and self.yes():
                c = []
                w = ast.Expr(s.value)
                self.cands(w, c)
                c = [z for z in c if z[0] is not w]
                if c:
                    e, f, x = self.rng.choice(c)
                    t = self.tmp("part")

                    class R(ast.NodeTransformer):
                        def visit(self, n):
                            if n is x:
                                return ld(t)
                            return self.generic_visit(n)
                    s.value = R().visit(s.value)
                    out.append(ass(t, x))
            out.append(s)
        return out


class IfSwap(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if self.infunc() and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.yes():
            t = n.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(t, n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.yes():
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class CompLoop(Base):
    """list comprehension -> loop"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and (
                    isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)) and self.yes():
                g = s.value.generators[0]
                tn = names(g.target)
                if set(tn) & set(names(self.stack[-1])) - set(names(s.value)) or not isinstance(g.target, (ast.Name, ast.Tuple)):
                    pass
                m = {x: self.tmp(x) for x in tn}

                class Rn(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(m.get(n.id, n.id), n.ctx)
                elt, tgt, ifs = Rn().visit(s.value.elt), Rn().visit(g.target), [Rn().visit(i) for i in g.ifs]
                t = self.tmp("list")
                b = [ast.Expr(ast.Call(ast.Attribute(ld(t), "append", ast.Load()), [elt], []))]
                for i in reversed(ifs):
                    b = [ast.If(i, b, [])]
                out += [ass(t, ast.List([], ast.Load())), ast.For(tgt, g.iter, b, [])]
                s.value = ld(t)
            out.append(s)
        return out


class LoopComp(Base):
    """x = []; for a in b: x.append(e)  ->  comprehension"""

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            n = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts \
                    and isinstance(n, ast.For) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call):
                c = n.body[0].value
                x = s.targets[0].id
                if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == x and x not in names(c.args[0]) and self.yes():
                    out.append(ass(x, ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class Rename(Base):
    """local variables renamed"""

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        self.generic_visit(n)
        self.stack.pop()
        inner = set()
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                inner |= set(names(x)) | {a.arg for y in ast.walk(x) if isinstance(y, ast.arguments) for a in y.args + y.kwonlyargs}
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                inner |= set(x.names)
        a = n.args
        par = {y.arg for y in a.args + a.kwonlyargs + a.posonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
        loc = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
        loc -= par | inner
        loc = {x for x in loc if not x.startswith("__")}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec") for x in ast.walk(n)):
            return n
        m = {x: x + "_r" for x in sorted(loc) if self.yes()}

        class Rn(ast.NodeTransformer):
            def visit_Name(self, q):
                return ast.Name(m.get(q.id, q.id), q.ctx)

            def visit_ExceptHandler(self, q):
                self.generic_visit(q)
                return q
        n.body = [Rn().visit(s) for s in n.body]
        return n


class Noop(Base):
    def block(self, body):
        out = []
        for k, s in enumerate(body):
            doc = k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not doc and self.yes():
                out.append(self.rng.choice([ast.Pass(), ass(self.tmp("unused"), ast.Constant(None)), ast.Expr(ast.Constant(0)), ass(self.tmp("unused"), ast.Tuple([], ast.Load())),
                                            ast.Assert(ast.Constant(True)), ast.If(ast.Constant(False), [ast.Pass()], [])]))
            out.append(s)
        return out


class Flip(Base):
    """comparisons turned around, products commuted"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and self.infunc() and self.yes():
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and self.infunc() and self.yes():
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Add) and self.infunc() and any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Pow, ast.Div)) for x in (n.left, n.right)) and self.yes():
            return ast.BinOp(n.right, ast.Add(), n.left)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name) and self.yes():
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class IfExpStmt(Base):
    """conditional expressions as statements"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and self.yes():
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [b]))
            else:
                out.append(s)
        return out


class EarlyReturn(Base):
    """else after return dropped"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and self.yes():
                e = s.orelse
                s.orelse = []
                out.append(s)
                out += e
            else:
                out.append(s)
        return out


class ElseReturn(Base):
    """statements after a returning if moved to its else branch"""

    def block(self, body):
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(body) and self.yes():
                s.orelse = self.block(body[k + 1:])
                return body[:k + 1]
        return body


class Extract(Base):
    """right-hand sides moved to module-level helper functions"""

    def visit_Module(self, n):
        self.helpers = []
        self.mod = set()
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.mod.add(s.name)
            for x in ast.walk(s) if isinstance(s, (ast.Import, ast.ImportFrom, ast.Try, ast.If)) else []:
                if isinstance(x, ast.alias):
                    self.mod.add((x.asname or x.name).split(".")[0])
            if isinstance(s, (ast.Assign, ast.Try, ast.If)):
                self.mod |= set(names(s, ast.Store))
        self.mod |= set(dir(builtins))
        self.generic_visit(n)
        k = max([i for i, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0])
        n.body[len(n.body):] = self.helpers
        return n

    def block(self, body):
        for s in body:
            if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None or isinstance(s.value, PURE):
                continue
            v = s.value
            ws = list(ast.walk(v))
            if any(isinstance(x, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in ws):
                continue
            if any(isinstance(x, ast.Name) and (x.id in ("super", "locals", "vars") or x.id.startswith("__")) for x in ws) or any(isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ws):
                continue
            if sum(1 for x in ws) < 5 or not self.yes():
                continue
            bound = {y for x in ws if isinstance(x, ast.comprehension) for y in names(x.target)}
            local = set()
            for f in self.stack:
                local |= set(names(f, ast.Store)) | {a.arg for y in ast.walk(f) if isinstance(y, ast.arguments) for a in y.args + y.kwonlyargs + [z for z in (y.vararg, y.kwarg) if z]}
                local |= {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f}
            free = []
            for x in ws:
                if isinstance(x, ast.Name) and x.id not in bound and x.id not in free and (x.id in local or x.id not in self.mod):
                    free.append(x.id)
            h = "_helper_%d" % (len(self.helpers) + 1)
            self.helpers.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in free], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                body=[ast.Return(v)], decorator_list=[], type_params=[]))
            s.value = ast.Call(ld(h), [ld(a) for a in free], [])
        return body


class FString(Base):
    """'{}_{}'.format(a, b) -> f-string"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            import string
            vals = []
            auto = 0
            try:
                for lit, f, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        vals.append(ast.Constant(lit))
                    if f is not None:
                        if spec or conv:
                            return n
                        if f == "":
                            k = auto
                            auto += 1
                        else:
                            k = int(f)
                        vals.append(ast.FormattedValue(n.args[k], -1, None))
            except (ValueError, IndexError):
                return n
            if self.yes():
                return ast.JoinedStr(vals)
        return n


class Unpack(Base):
    """a, b = x, y -> temporaries"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) \
                    and all(isinstance(x, ast.Name) for x in s.targets[0].elts) and self.yes():
                ts = []
                for e in s.value.elts:
                    t = self.tmp("val")
                    out.append(ass(t, e))
                    ts.append(t)
                for n, t in zip(s.targets[0].elts, ts):
                    out.append(ass(n.id, ld(t)))
            else:
                out.append(s)
        return out


class LambdaDef(Base):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Lambda) and self.yes():
                out.append(ast.FunctionDef(name=s.targets[0].id, args=s.value.args, body=[ast.Return(s.value.body)], decorator_list=[], type_params=[]))
            else:
                out.append(s)
        return out


class Matmul(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "dot" and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and len(n.args) == 2 and self.yes():
            return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        return n


class Enumerate(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if self.infunc() and not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate") and self.yes():
            n.target = ast.Tuple([ast.Name(self.tmp("k"), ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ld("enumerate"), [n.iter], [])
        return n


class SumLoop(Base):
    """sum(generator) -> loop;  any/all likewise"""

    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("sum", "any", "all") and len(v.args) == 1 \
                    and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1 and self.yes():
                g = v.args[0].generators[0]
                m = {x: self.tmp(x) for x in names(g.target)}

                class Rn(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(m.get(n.id, n.id), n.ctx)
                elt, tgt, ifs = Rn().visit(v.args[0].elt), Rn().visit(g.target), [Rn().visit(i) for i in g.ifs]
                t = self.tmp("acc")
                if v.func.id == "sum":
                    b = [ass(t, ast.BinOp(ld(t), ast.Add(), elt))]
                    init = ast.Constant(0)
                elif v.func.id == "any":
                    b = [ast.If(elt, [ass(t, ast.Constant(True)), ast.Break()], [])]
                    init = ast.Constant(False)
                else:
                    b = [ast.If(ast.UnaryOp(ast.Not(), elt), [ass(t, ast.Constant(False)), ast.Break()], [])]
                    init = ast.Constant(True)
                for i in reversed(ifs):
                    b = [ast.If(i, b, [])]
                out += [ass(t, init), ast.For(tgt, g.iter, b, [])]
                s.value = ld(t)
            out.append(s)
        return out


class AndNest(Base):
    """if a and b: X -> if a: if b: X;  x in (p, q) -> x == p or x == q"""

    def visit_If(self, n):
        self.generic_visit(n)
        if self.infunc() and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.yes():
            a = n.test.values[0]
            b = n.test.values[1] if len(n.test.values) == 2 else ast.BoolOp(ast.And(), n.test.values[1:])
            return ast.If(a, [ast.If(b, n.body, [])], [])
        if self.infunc() and isinstance(n.test, ast.BoolOp) and self.yes():
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.test.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Inline(Base):
    """a temporary used once, in the next statement, put in place"""

    def block(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            s, n = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, (ast.Return,)) and n.value is not None:
                x = s.targets[0].id
                if names(n).count(x) == 1 and not any(isinstance(y, SCOPES) and x in names(y) for y in ast.walk(n)) and self.yes():
                    class R(ast.NodeTransformer):
                        def visit_Name(self, q):
                            return s.value if q.id == x and isinstance(q.ctx, ast.Load) else q
                    out[i + 1] = R().visit(n)
                    del out[i]
                    continue
            i += 1
        return out


class Aug(Base):
    """x = x + c (c constant number) <-> x += c"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and self.yes():
                s = ass(s.target.id, ast.BinOp(ld(s.target.id), s.op, s.value))
            out.append(s)
        return out


class DictLit(Base):
    """dict comprehension -> loop; dict()/list() <-> literals"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("dict", "list") and not n.args and not n.keywords and self.yes():
            return ast.Dict([], []) if n.func.id == "dict" else ast.List([], ast.Load())
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and all(k.arg for k in n.keywords) and self.yes():
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        return n

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.DictComp) and len(s.value.generators) == 1 and self.yes():
                g = s.value.generators[0]
                m = {x: self.tmp(x) for x in names(g.target)}

                class Rn(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(m.get(n.id, n.id), n.ctx)
                k, v, tgt, ifs = Rn().visit(s.value.key), Rn().visit(s.value.value), Rn().visit(g.target), [Rn().visit(i) for i in g.ifs]
                t = self.tmp("d")
                b = [ast.Assign([ast.Subscript(ld(t), k, ast.Store())], v)]
                for i in reversed(ifs):
                    b = [ast.If(i, b, [])]
                out += [ass(t, ast.Dict([], [])), ast.For(tgt, g.iter, b, [])]
                s.value = ld(t)
            out.append(s)
        return out


class Kwargs(Base):
    """positional arguments of calls to functions of the same module given by keyword; keywords reordered"""

    def visit_Module(self, n):
        self.sig = {}
        dup = set()
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs and not s.decorator_list:
                self.sig[s.name] = [a.arg for a in s.args.args]
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig and self.infunc() and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) > 1 and self.yes():
            loc = set()
            for f in self.stack:
                loc |= set(names(f, ast.Store)) | {a.arg for a in f.args.args}
            ps = self.sig[n.func.id]
            if n.func.id not in loc and len(n.args) <= len(ps):
                k = self.rng.randrange(1, len(n.args))
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps[k:], n.args[k:])] + n.keywords
                n.args = n.args[:k]
        return n


class SelfAlias(Base):
    """module function aliases at the start of functions: np -> via local alias of a used numpy function"""

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        self.generic_visit(n)
        self.stack.pop()
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global)) for x in ast.walk(n) if x is not n):
            return n
        used = {}
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "np" and isinstance(x.ctx, ast.Load):
                used.setdefault(x.attr, []).append(x)
        c = [a for a in used if len(used[a]) > 1]
        if c and self.yes():
            a = self.rng.choice(sorted(c))

            class R(ast.NodeTransformer):
                def visit_Attribute(self, q):
                    self.generic_visit(q)
                    if isinstance(q.value, ast.Name) and q.value.id == "np" and q.attr == a:
                        return ld("_np_" + a)
                    return q
            body = [R().visit(s) for s in n.body]
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(k, ass("_np_" + a, ast.Attribute(ld("np"), a, ast.Load())))
            n.body = body
        return n


class ExtractMethodTail(Base):
    """the rest of a function after a prefix moved to a nested function called at once"""

    def block(self, body):
        return body

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        self.generic_visit(n)
        self.stack.pop()
        if len(n.body) < 3 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(n)):
            return n
        k = self.rng.randrange(1, len(n.body))
        tail = n.body[k:]
        if not isinstance(tail[-1], ast.Return):
            return n
        # names assigned in the tail must not be read there before, nor be assigned in the prefix
        pre = set(names(ast.Module(n.body[:k], []), ast.Store)) | {a.arg for a in n.args.args + n.args.kwonlyargs + [z for z in (n.args.vararg, n.args.kwarg) if z]}
        pre |= {x.name for s in n.body[:k] for x in ast.walk(s) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        if set(names(ast.Module(tail, []), ast.Store)) & pre or any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name in pre for s in tail for x in ast.walk(s)):
            return n
        if not self.yes():
            return n
        h = self.tmp("finish")
        n.body = n.body[:k] + [ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[], type_params=[]),
                               ast.Return(ast.Call(ld(h), [], []))]
        return n


KINDS = dict(rettmp=ReturnTemp, argtmp=ArgTemp, hoist=Hoist, ifswap=IfSwap, comploop=CompLoop, loopcomp=LoopComp, rename=Rename, noop=Noop, flip=Flip, ifexp=IfExpStmt,
             early=EarlyReturn, elseret=ElseReturn, extract=Extract, fstring=FString, unpack=Unpack, lambdadef=LambdaDef, matmul=Matmul, enum=Enumerate, sumloop=SumLoop,
             andnest=AndNest, inline=Inline, aug=Aug, dictlit=DictLit, kwargs=Kwargs, npalias=SelfAlias, tail=ExtractMethodTail)


def main():
    a = sys.argv[1:]
    seed, kinds = int(a[0]), a[1]
    p, files, tests, keep, checks, props = 0.6, None, False, False, True, None
    i = 2
    while i < len(a):
        if a[i] == "-p":
            p = float(a[i + 1]); i += 1
        elif a[i] == "-f":
            files = a[i + 1].split(","); i += 1
        elif a[i] == "-t":
            tests = True
        elif a[i] == "-k":
            keep = True
        elif a[i] == "-n":
            checks = False
        elif a[i] == "-c":
            props = a[i + 1].split(","); i += 1
        i += 1
    kk = sorted(KINDS) if kinds == "all" else kinds.split(",")
    W = "/tmp/refac_%d_%s" % (seed, kinds.replace(",", "_")[:40])
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    rng = random.Random(seed)
    tot = {}
    for d, _, fs in os.walk(W + "/enterprise"):
        for f in sorted(fs):
            if f.endswith(".py") and (files is None or f in files):
                path = os.path.join(d, f)
                tree = ast.parse(open(path).read())
                for k in kk:
                    t = KINDS[k](random.Random(rng.random()), p)
                    t.n = kk.index(k) * 1000
                    tree = t.visit(tree)
                    ast.fix_missing_locations(tree)
                    tot[k] = tot.get(k, 0) + t.count
                src = ast.unparse(tree)
                compile(src, path, "exec")
                open(path, "w").write(src + "\n")
    print(W, tot, flush=True)
    rc = 0
    if tests:
        sys.path.insert(0, V + "/tools")
        import plant
        import json
        print("tests:", plant.run_tests(W, json.load(open("/opt/vp/BASELINE.json"))), flush=True)
    if checks:
        ps = props or sorted(f[:-4] for f in os.listdir(V + "/obs") if f.startswith("C"))
        from concurrent.futures import ThreadPoolExecutor

        def one(c):
            r = subprocess.run(["python3-vt", "check.py", "--property", c, "--repo", W, "--noevidence", "--verbose"], cwd=V, capture_output=True, text=True, timeout=900)
            return c, r
        with ThreadPoolExecutor(4) as ex:
            for c, r in ex.map(one, ps):
                if r.returncode:
                    rc = 1
                    print(r.stdout[-6000:] if r.returncode == 1 else (c, r.returncode, r.stderr[-2000:]))
                else:
                    l = r.stdout.split("\n")
                    bad = [x[:260] for x in l if x.startswith("  undecided") and "basis | term too large" not in x]
                    if bad:
                        print(c, l[0] + "\n" + "\n".join(bad))
    if not keep:
        shutil.rmtree(W, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
