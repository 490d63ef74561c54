#!/usr/bin/env python3
"""developer tool: numpy expressions on small constant arrays, engine against numpy (validates the constant propagation, never the repository)"""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import numpy as np
from sa import obs, terms as t
from tools.enginefuzz import pyev, Skip

V = ["np.array([3., 1., 2., 2.])", "np.array([1, 5, 0, -2])", "np.array([0.5, -1.5, 2.5, 4.])", "np.arange(4)", "np.linspace(0, 3, 4)", "np.zeros(4)", "np.ones(4)", "np.arange(1, 5) ** 2", "np.repeat([1., 2.], 2)"]
M = ["np.array([[1., 2.], [3., 4.], [5., 7.], [0., 2.]])", "np.array([[2, 0], [1, 1], [3, -1], [4, 4]])", "np.ones((4, 2))", "np.zeros((4, 2))", "np.vstack([np.arange(4), np.ones(4)]).T"]
S = ["np.array([[2., 1.], [1., 3.]])", "np.diag([1., 2.])", "np.eye(2)", "np.array([[1., -1.], [0., 2.]])"]
B = ["({V} > 1)", "({V} <= {V})", "({V} == {V})", "~({V} > 0)", "({V} > 0) & ({V} < 3)", "({V} > 2) | ({V} == 0)", "np.array([True, False, True, False])", "np.isin({V}, [1, 2])", "np.logical_or({V} > 1, {V} < 0)", "np.logical_and({V} > 1, {V} < 3)", "np.logical_not({V} > 1)", "np.isclose({V}, {V})"]
EV = ["{V} + {V}", "{V} * 2 - 1", "{V}[::-1]", "np.sort({V})", "np.abs({V})", "np.where({B}, {V}, {V})", "np.where({B}, {V}, 0)", "np.concatenate([{V}[:2], {V}[2:]])", "{V}[np.argsort({V}, kind='mergesort')]", "np.cumsum({V})", "np.maximum({V}, {V})", "np.minimum({V}, 1)", "np.clip({V}, 0, 2)", "{M}[:, 0]", "{M}[:, 1] * {V}", "np.dot({M}, {V}[:2])", "{M} @ np.array([1., 2.])", "np.diff(np.concatenate([[0], {V}]))", "np.rint({V})", "np.floor({V})", "np.ceil({V})", "np.sign({V})", "np.round({V})", "{M}.sum(axis=1)", "np.sum({M}, axis=1)", "np.max({M}, axis=1)", "np.min({M}, axis=1)", "np.mean({M}, axis=1)", "np.tile({V}[:2], 2)", "np.repeat({V}[:2], 2)", "{M}[:2].flatten()", "{M}[2:].ravel()", "np.hstack([{V}[0], {V}[1:]])", "np.append({V}[:3], 5.)", "np.roll({V}, 1)", "np.flip({V})", "{V} % 2", "{V} // 2", "{V}.copy()", "np.heaviside({V}, 0.5)", "np.searchsorted(np.array([0., 1., 2.]), {V})", "np.digitize({V}, [0., 1., 2.])", "np.interp({V}, [0., 1., 3.], [2., 4., -1.])", "np.full_like({V}, 3.)", "np.full(4, 2)", "np.ones_like({V})", "np.zeros_like({V})", "{V}.astype(int)", "np.einsum('ij,i->j', {M}, {V})[[0, 1, 0, 1]]", "np.einsum('ij,j->i', {M}, {V}[:2])", "np.insert({V}[:3], 0, 9.)", "np.delete({V}, 0)[[0, 1, 2, 0]]", "np.array(list({V}))", "np.array([z * 2 for z in {V}])", "np.fromiter((z for z in {V}), float)", "np.prod({M}, axis=1)", "np.argsort({V}, kind='stable')", "np.lexsort(({V}, {V}))", "({M} * {V}[:, None])[:, 1]", "np.squeeze({V}[:, None])", "np.linalg.solve({S}, {V}[:2])[[0, 1, 1, 0]]", "np.atleast_1d({V})", "np.cumprod({V})", "np.trapz({V}) * {V}", "np.nan_to_num({V})", "np.diag(np.outer({V}, {V}))", "np.power({V}, 2)", "np.square({V})", "np.subtract({V}, 1)", "np.divide({V}, 2)", "np.multiply({V}, {V})", "np.negative({V})", "np.real({V})", "np.average({M}, axis=1)", "np.asarray({V})", "{V}.reshape((2, 2)).T.flatten()", "np.take({V}, [1, 0, 3, 2])", "np.compress({B}, {V}).sum() + {V}", "np.select([{B}], [{V}], 0)", "np.choose([0, 1, 0, 1], [{V}, {V}])", "np.put_along_axis" and "{V}", "np.mod({V}, 3)", "np.fmod({V}, 3)", "np.trunc({V})"]
ES = ["np.sum({V})", "{V}.sum()", "{V}.max()", "{V}.min()", "np.max({V})", "np.min({V})", "np.mean({V})", "np.median({V})", "np.prod({V})", "np.dot({V}, {V})", "{V} @ {V}", "np.any({B})", "np.all({B})", "any({B})", "all({B})", "sum({B})", "np.sum({B})", "({B}).sum()", "np.count_nonzero({B})", "len({V}[{B}])", "{V}.size", "{V}.shape[0]", "{M}.shape[1]", "{M}.ndim", "np.argmax({V})", "np.argmin({V})", "{V}[0]", "{V}[-1]", "{M}[1, 1]", "{M}[-1][0]", "len(np.unique({V}))", "np.trace({S})", "np.linalg.det({S})", "np.ptp({V})", "np.var({V})", "float({V}[0])", "int({V}[1])", "max({V})", "min({V})", "sum({V})", "np.isscalar(3)", "np.array_equal({V}, {V})", "np.allclose({V}, {V})", "np.inner({V}, {V})", "np.vdot({V}, {V})", "np.nonzero({B})[0].size", "np.flatnonzero({B}).size", "len(np.where({B})[0])", "round({V}[0])", "abs({V}[2])", "np.ndim({M})", "np.size({M})", "np.sum({M})", "np.max({M})"]
EX = ["np.unique({V})", "np.unique({V}, return_index=True)[1]", "np.unique({V}, return_inverse=True)[1]", "np.unique({V}, return_counts=True)[1]", "{V}[{B}]", "np.where({B})[0]", "np.nonzero({B})[0]", "np.flatnonzero({B})", "{V}[1:3]", "{V}[::2]", "np.diff({V})", "{M}[{B}]", "{M}[1:3, :1]", "np.outer({V}[:2], {V})", "{M}.T", "{M}.reshape((2, 4))", "np.dot({M}.T, {M})", "np.linalg.inv({S})", "np.linalg.solve({S}, {S})", "np.diag({S})", "np.diag({V}[:2])", "np.tril({S})", "np.triu({S})", "np.kron({S}, {S})[0]", "np.column_stack([{V}, {V}])", "np.stack([{V}, {V}])", "np.hstack([{M}, {M}])", "np.vstack([{V}, {V}])", "np.hstack([{V}, {V}])", "np.ix_([0, 1], [1])[0]", "{S}[np.ix_([0, 1], [1])]", "np.meshgrid({V}[:2], {V}[:3])[0]", "np.meshgrid({V}[:2], {V}[:3])[1]", "np.tile({V}[:2], (2, 1))", "np.argwhere({B})[:, 0]", "np.intersect1d({V}, {V})", "np.setdiff1d({V}, {V}[:2])", "np.union1d({V}, {V})", "{M}[:, None, 0]", "{M}[..., 1]", "np.expand_dims({V}, 0)", "np.transpose({M})", "np.swapaxes({M}, 0, 1)", "np.sum({M}, axis=0)", "{M}.mean(axis=0)", "np.cumsum({M}, axis=0)", "np.linspace(1, 2, 3)", "np.arange(1, 3, 0.5)", "np.arange(0)", "np.eye(3)", "np.identity(2)", "np.tensordot({M}, {V}, (0, 0))", "np.einsum('ij,ik->jk', {M}, {M})", "np.array_split({V}, 2)[0]", "np.split({V}, 2)[1]", "list({V})", "{V}.tolist()", "np.atleast_2d({V})", "np.dstack([{V}[:2], {V}[:2]])[0]", "np.logspace(0, 2, 3)", "np.bincount([0, 1, 1])", "np.searchsorted([0., 1., 2.], {V}, side='right')", "np.sort({M}, axis=0)"]
STM = ["a = {V}; a[{B}] = 7.; a", "a = {V}.copy(); a[1:3] += 1; a", "a = {M}.copy(); a[:, 0] = 0; a", "a = np.zeros((2, 3)); a[0, 1] = 2; a[1] = 1; a", "a = np.zeros(4); a[[0, 2]] = {V}[:2]; a", "a = {M}.copy(); a[{B}, 1] = -1; a", "a = np.empty(4); a[:] = {V}; a", "a = {V}.copy(); a *= 2; a", "a = {V}.astype(float); a[-1] = 3; a", "a = np.zeros(6); a[::2] = 1.; a[1::2] = {V}[:3]; a", "a = {S}.copy(); a[np.diag_indices(2)] += 1; a", "a = {S}.copy(); a[np.ix_([1], [0, 1])] += 2; a", "a = np.eye(4); a[1:3, 1:3] = {S}; a", "a = {M}.copy(); b = a.T; b[0] = 5.; a", "a = {V}.copy(); b = a[1:]; b[0] = 9.; a", "a = {M}.copy(); a[a > 2] = 0; a"]


def gen(r, s):
    while "{" in s:
        i = s.index("{")
        k = s[i + 1]
        s = s[:i] + r.choice({"V": V, "M": M, "S": S, "B": B}[k]) + s[i + 3:]
    return s


def num(x):
    if x.op in ("array", "zeros", "ones", "eye", "diag"):
        L = t.LITS.of(x)
        if L is None:
            raise Skip(x.op)
        return np.array([num(e) for e in L.flat], dtype=float).reshape(L.dims)
    if x.op in ("list", "tuple"):
        return [num(e) for e in x.args]
    if x.op in ("true", "false"):
        return float(x.op == "true")
    if x.op == "num":
        return float(x.args[0])
    raise Skip(x.op)


def main():
    seed0, n = int(sys.argv[1]), int(sys.argv[2])
    W = obs.World("/repo")
    unf = {}
    bad = tot = 0
    for s in EV + ES + EX + STM + B:
        for seed in range(seed0, seed0 + n):
            r = random.Random(seed)
            src = gen(r, s)
            try:
                ns = {"np": np}
                if ";" in src:
                    parts = src.rsplit("; ", 1)
                    exec(parts[0], ns)
                    want = eval(parts[1], ns)
                else:
                    want = eval(src, ns)
            except Exception as e:
                continue
            want = np.array(want, dtype=float)
            if not np.all(np.isfinite(want)):
                continue
            tot += 1
            o = obs.run(W, src)
            if o.undecided or o.raises:
                print("UNDECIDED/RAISES", src, o.undecided, o.raises); bad += 1
                continue
            try:
                got = np.array(num(o.ret), dtype=float)
            except Skip:
                unf.setdefault(s, t.show(o.ret, 5)[:160])
                continue
            if got.shape != want.shape or not np.allclose(got, want):
                print("MISMATCH", src, "\n   numpy", want.tolist(), "\n   engine", got.tolist()); bad += 1
    print("checked", tot, "bad", bad, "unfolded", len(unf))
    for s, x in unf.items():
        print("   ", s, "->", x)


if __name__ == "__main__":
    main()
