"""Shows, on the real code, every defect that a fix: commit in /repo repairs (and the
recorded known findings).  Run:  cd /repo && /opt/venv/bin/python /verif/findings/demo_defects.py
Prints one line per defect: OK (fixed) or DEFECT.  Not used by any check."""
import os, sys, json, tempfile, types
sys.path.insert(0, os.getcwd())
import logging; logging.disable(logging.CRITICAL)
import numpy as np
from enterprise.signals import signal_base as sb, parameter as pm, utils, white_signals as ws, gp_signals as gs, deterministic_signals as ds
from enterprise.signals import selections
from enterprise.signals.selections import Selection
import enterprise.pulsar as ep

class P:  # minimal pulsar
    def __init__(s, name="J0000", n=12, seed=1):
        r = np.random.RandomState(seed)
        s.name = name; s.toas = np.sort(np.repeat(np.arange(n // 2) * 86400.0 * 30 + 4.6e9, 2) + r.uniform(0, .5, n))
        s.stoas = s.toas.copy(); s.toaerrs = 1e-7 * (1 + r.uniform(size=n)); s.residuals = 1e-6 * r.standard_normal(n)
        s.freqs = r.uniform(800, 1800, n); s.Mmat = np.stack([np.ones(n), s.toas - s.toas[0], (s.toas - s.toas[0]) ** 2]).T
        s.fitpars = ["Offset", "F0", "F1"]
        v = r.standard_normal(3); s.pos = v / np.linalg.norm(v); s.theta = np.arccos(s.pos[2]); s.phi = np.arctan2(s.pos[1], s.pos[0])
        s.backend_flags = np.array((["A", "A", "B", "B"] * n)[:n]); s.flags = {"f": s.backend_flags}
        s.planetssb = r.standard_normal((n, 9, 6)); s.sunssb = r.standard_normal((n, 6)); s.pos_t = np.tile(s.pos, (n, 1)); s.pdist = (1.0, 0.2)
        s.telescope = np.array(["ao"] * n)

R = []
def check(name):
    def deco(f):
        try: ok = bool(f())
        except Exception as e: ok = False; name2 = name + f"  [{type(e).__name__}: {str(e)[:80]}]"
        else: name2 = name
        print(("OK     " if ok else "DEFECT ") + name2); R.append(ok)
    return deco

@check("C10 clique merging: phiinv of overlapping common signals is the inverse of phi")
def _():
    k = utils.KernelMatrix(np.diag(np.arange(1.0, 7.0)))
    def blk(n, s): 
        a = np.random.RandomState(s).standard_normal((n, n)); return a @ a.T + n * np.eye(n)
    k.add(blk(2, 1), np.array([0, 1])); k.add(blk(2, 2), np.array([2, 3])); k.add(blk(2, 3), np.array([1, 2]))
    c = k._cliques
    return c[0] == c[1] == c[2] == c[3]

@check("C10 overlapping common signals across pulsars")
def _():
    psrs = [P(f"J{i}", seed=i) for i in range(3)]
    T = 4e7
    pl = utils.powerlaw(log10_A=pm.Uniform(-16, -12)("A"), gamma=pm.Uniform(1, 6)("g"))
    f = np.arange(1, 4) / T
    c1 = gs.FourierBasisCommonGP(pl, utils.hd_orf(), modes=f[:2], Tspan=T, name="c1")
    @pm.function
    def dense_prior(f, amp=1.0): 
        n = len(f); return 1e-14 * (np.eye(n) + 0.3)
    basis = utils.createfourierdesignmatrix_red(modes=f, Tspan=T)
    dg = gs.BasisGP(dense_prior(), basis, name="dense")
    s = ws.MeasurementNoise() + dg + c1
    pta = sb.PTA([s(p) for p in psrs])
    ps = {"A": -13, "g": 3, **{f"J{i}_efac": 1.0 for i in range(3)}}
    phi = pta.get_phi(ps); inv = pta.get_phiinv(ps)
    return np.allclose(inv @ phi, np.eye(len(phi)), atol=1e-6)

@check("C01 EcorrKernelNoise(sparse): cached matrices of different parameters are distinct")
def _():
    s = ws.EcorrKernelNoise(log10_ecorr=pm.Uniform(-9, -5), method="sparse")(P())
    n = s.param_names[0]
    a = s.get_ndiag({n: -6}).toarray().copy(); s.get_ndiag({n: -7})
    return np.array_equal(s.get_ndiag({n: -6}).toarray(), a)

@check("C01 PhysicalEphemerisSignal: cached delays of different parameters are distinct")
def _():
    s = ds.PhysicalEphemerisSignal(frame_drift_rate=pm.Uniform(-1, 1)("fdr"), jup_orb_elements=False, d_jupiter_mass=0., d_saturn_mass=0., d_uranus_mass=0., d_neptune_mass=0., sat_orb_elements=False)(P())
    a = s.get_delay({"fdr": 1e-9}).copy(); s.get_delay({"fdr": 5e-9})
    return np.array_equal(s.get_delay({"fdr": 1e-9}), a)

@check("C01 BasisGP.get_phi: a returned prior is not changed by a later call")
def _():
    s = gs.FourierBasisGP(utils.powerlaw(log10_A=pm.Uniform(-16, -12), gamma=4.), components=3)(P())
    n = s.param_names[0]
    a = s.get_phi({n: -13}); b = np.array(a); s.get_phi({n: -14})
    return np.array_equal(np.array(a), b)

@check("C04 set_default_params after an evaluation takes effect")
def _():
    m = ws.MeasurementNoise(efac=pm.Constant()) 
    pta = sb.PTA([(m + gs.TimingModel())(P())])
    pta.set_default_params({"J0000_efac": 1.0}); a = pta.get_lnlikelihood({})
    pta.set_default_params({"J0000_efac": 2.0}); b = pta.get_lnlikelihood({})
    return a != b

@check("C01 common GP with a user-named coefficient vector depends on its value")
def _():
    c = pm.Normal(0, 1, size=6)("myvec")
    s = gs.FourierBasisCommonGP(utils.powerlaw(log10_A=-14., gamma=4.), utils.monopole_orf(), coefficients=c, components=3, Tspan=4e7)(P())
    a = s.get_delay({"myvec": np.ones(6)}); b = s.get_delay({"myvec": 2 * np.ones(6)})
    return not np.allclose(a, b)

@check("C11 columns are combined correctly around a basis with varying parameters")
def _():
    p = P(); b = utils.createfourierdesignmatrix_red(nmodes=2, Tspan=4e7)
    pri = utils.powerlaw(log10_A=-13., gamma=4.)
    env = utils.createfourierdesignmatrix_env(nmodes=2, Tspan=4e7, log10_Amp=pm.Uniform(-8, -6))
    s = (gs.BasisGP(pri, env, name="e") + gs.BasisGP(pri, b, name="a") + gs.BasisGP(pri, b, name="b"))(p)
    ps = {x: -7. for x in s.param_names}
    F = s.get_basis(ps)
    return all(np.allclose(F[:, s._idx[g]], g.get_basis(ps)) for g in s._signals)

@check("C20 get_coefficients of single-pulsar common signals")
def _():
    p = P()
    m = ws.MeasurementNoise(efac=pm.Constant(1.)) + gs.FourierBasisCommonGP(utils.powerlaw(log10_A=-13., gamma=4.), utils.monopole_orf(), components=2, Tspan=4e7, name="c") + gs.FourierBasisGP(utils.powerlaw(log10_A=-13., gamma=2.), components=3, Tspan=3e7, combine=False)
    pta = sb.PTA([m(p)]); r = utils.get_coefficients(pta, {}, variance=False)
    ref = utils.ConditionalGP(pta).get_mean_coefficients({})
    return set(k for k in r) == set(ref) and all(np.allclose(r[k], ref[k]) for k in ref)

@check("C06 sampling shares hyperparameter draws")
def _():
    h = pm.Uniform(0, 1)("h"); a = pm.Normal(mu=h, sigma=1e-9)("a"); b = pm.Normal(mu=h, sigma=1e-9)("b")
    r = pm.sample([a, b]); return abs(r["a"] - r["b"]) < 1e-6 and abs(r["h"] - r["a"]) < 1e-6

@check("C05 nested functions with equal keyword names keep separate parameters")
def _():
    f = pm.Function(lambda x: x, x=pm.Uniform(0, 1)); g = pm.Function(lambda x: x, x=pm.Uniform(2, 3))
    def tot(a, b): return a + b
    t = pm.Function(tot, a=f, b=g)("t")
    return len(t.params) == 2

@check("C02 orbital-evolution helpers leave array arguments alone")
def _():
    mc = np.array([1e9]); c = mc.copy()
    utils.get_edot(1e-8, mc, .1); utils.get_Fdot(1e-8, mc, .1); utils.get_gammadot(1e-8, mc, .5, .1)
    dl = np.array([10.0]); utils.get_an(1, mc, dl, None, 1e-8, .1); utils.get_bn(1, mc, dl, None, 1e-8, .1); utils.get_cn(1, mc, dl, None, 1e-8, .1)
    t0 = np.array([55000.0]); utils.bwm_delay(np.array([1.0]), np.array([0, 0, 1.0]), t0=t0)
    return mc == c and dl == 10 and t0 == 55000

class BP(ep.BasePulsar):
    def __init__(s):
        q = P(); r = np.random.RandomState(3).permutation(12)
        s._sort = True; s.name = q.name
        s._toas = q.toas[r]; s._stoas = q.stoas[r]; s._toaerrs = q.toaerrs[r]; s._residuals = q.residuals[r]; s._ssbfreqs = q.freqs[r]
        s._designmatrix = q.Mmat[r]; s.fitpars = list(q.fitpars); s._flags = {"f": q.backend_flags[r]}
        s._planetssb = q.planetssb[r]; s._sunssb = q.sunssb[r]; s._pos_t = q.pos_t[r] * np.arange(12)[:, None]; s._telescope = q.telescope[r]
        s._raj, s._decj = 1., .2; s._pos = s._get_pos(); s._pdist = (1., .2); s._dm = 1.; s._dmx = None
        s.sort_data()

@check("C12 filter_data keeps every per-TOA array aligned")
def _():
    p = BP(); t = p.toas.copy(); pl = p.planetssb.copy(); p.filter_data(t[4] / 86400, t[-1] / 86400 + 1)
    keep = t >= t[4] / 86400 * 86400
    return len(p.toas) == keep.sum() and all(len(getattr(p, a)) == len(p.toas) for a in ["stoas", "residuals", "planetssb", "sunssb", "pos_t", "telescope", "Mmat", "freqs", "toaerrs"]) and np.allclose(p.planetssb, pl[keep])

@check("C12 filter_data accepts a single bound")
def _():
    p = BP(); t = p.toas.copy(); p.filter_data(start_time=(t[5] - 10) / 86400)
    return len(p.toas) == np.sum(t >= t[5] - 10)

@check("C12 filter_data drops emptied design-matrix columns together with their parameter names")
def _():
    p = BP(); p._designmatrix = np.concatenate([p._designmatrix, (p._toas < np.sort(p._toas)[3])[:, None]], axis=1); p.fitpars.append("JUMP1")
    t = p.toas.copy(); p.filter_data((t[5] - 10) / 86400, 1e9)
    return p.Mmat.shape[1] == len(p.fitpars)

@check("C13 save_feather / read_feather")
def _():
    p = BP()
    with tempfile.TemporaryDirectory() as d:
        p.to_feather(d + "/a.feather"); q = ep.Pulsar(d + "/a.feather")
    return np.allclose(q.residuals, p.residuals) and np.allclose(q.Mmat, p.Mmat) and np.allclose(q.planetssb, p.planetssb)

@check("C09 BlockMatrix keeps single-column shapes")
def _():
    s = ws.EcorrKernelNoise(log10_ecorr=pm.Uniform(-9, -5), method="block")(P()); n = s.param_names[0]
    N = np.ones(12) + s.get_ndiag({n: -6.}) if False else s.get_ndiag({n: -6.}) + np.ones(12)
    x = np.arange(12.); X = np.stack([x, x ** 2]).T; Z = np.ones((12, 1))
    S = sb.ShermanMorrison(s._get_jvecs({n: -6.})[1], s._get_jvecs({n: -6.})[0], np.ones(12))
    return all(np.shape(N.solve(a, left_array=b)) == np.shape(S.solve(a, left_array=b)) and np.allclose(N.solve(a, left_array=b), S.solve(a, left_array=b)) for a, b in [(x, x), (x, X), (X, X), (x, Z), (X, Z), (Z, Z), (X, x), (Z, X)])

@check("C05 pulsar attributes are bound to user-function arguments by name")
def _():
    p = P()
    def f(amp=1.0, toas=None): return amp, toas
    a, t = pm.Function(f)("x", psr=p)()
    return a == 1.0 and t is p.toas

@check("C08 correlated likelihood accepts a pulsar without a basis")
def _():
    class Q(P):
        def __init__(s, n, pos): super().__init__(); s.name = n; s.pos = np.array(pos)
    wn = ws.MeasurementNoise(efac=pm.Constant(1.0))
    gw = gs.FourierBasisCommonGP(__import__("enterprise.signals.gp_priors", fromlist=["x"]).powerlaw(log10_A=pm.Uniform(-18, -12)("a"), gamma=pm.Uniform(1, 7)("g")), utils.hd_orf(), components=2, Tspan=1e8)
    A, B, C = (wn + gw)(Q("A", [1., 0, 0])), sb.SignalCollection([wn])(Q("B", [0, 1., 0])), (wn + gw)(Q("C", [0, 0, 1.]))
    x = {"a": -7., "g": 3.}
    rn, ld = B.get_rNr_logdet({})
    return np.isclose(sb.PTA([A, B, C]).get_lnlikelihood(x), sb.PTA([A, C]).get_lnlikelihood(x) - 0.5 * (rn + ld))

@check("C18 an explicit list of modes is accepted")
def _():
    pl = __import__("enterprise.signals.gp_priors", fromlist=["x"]).powerlaw(log10_A=pm.Constant(-14.), gamma=pm.Constant(3.))
    return gs.FourierBasisGP(pl, modes=[1e-8, 2e-8])(P()).get_basis().shape == (12, 4)

@check("C20 draws of correlated coefficients have covariance Sigma^-1 with common_sparse")
def _():
    class Q(P):
        def __init__(s, n, pos): super().__init__(); s.name = n; s.pos = np.array(pos)
    gpp = __import__("enterprise.signals.gp_priors", fromlist=["x"])
    C = pm.Constant
    m = (ws.MeasurementNoise(efac=C(1.0)) + gs.FourierBasisGP(gpp.powerlaw(log10_A=C(-14.)("ra"), gamma=C(3.)("rg")), components=3, combine=False, Tspan=1e8)
         + gs.FourierBasisCommonGP(gpp.powerlaw(log10_A=C(-14.)("a"), gamma=C(3.)("g")), utils.hd_orf(), components=2, Tspan=1e8, combine=False))
    pta = sb.PTA([m(Q("A", [1., 0, 0])), m(Q("B", [0, 1., 0])), m(Q("D", [0, 0, 1.]))])
    import scipy.linalg as sl
    S = sl.block_diag(*pta.get_TNT({})) + pta.get_phiinv({})
    n = len(S)
    mean = utils.get_coefficients(pta, {}, variance=False, common_sparse=True)
    ks = list(mean)
    cols, real = [], np.random.randn
    try:
        for i in range(n):
            np.random.randn = lambda *a, i=i: np.eye(n)[i]
            d = utils.get_coefficients(pta, {}, common_sparse=True)
            cols.append(np.concatenate([d[k] - mean[k] for k in ks]))
    finally:
        np.random.randn = real
    L = np.array(cols).T
    D = np.sqrt(np.diag(S))
    return np.allclose(L.dot(L.T) * np.outer(D, D), np.linalg.inv(S) * np.outer(D, D), atol=1e-6)

@check("C12 front end + back end flags are kept in full")
def _():
    from enterprise.pulsar import BasePulsar
    p = BasePulsar(); p._sort = True; p._toas = np.array([1., 2., 3.])
    p._flags = {"fe": np.array(["Rcvr1_2"] * 3), "be": np.array(["GUPPI", "GASP", "GUPPI"])}
    p.sort_data()
    return list(p.backend_flags) == ["Rcvr1_2_GUPPI", "Rcvr1_2_GASP", "Rcvr1_2_GUPPI"]

@check("C01 a failed evaluation leaves the basis and its labels consistent")
def _():
    gpp = __import__("enterprise.signals.gp_priors", fromlist=["x"])
    @pm.function
    def chrom(toas, idx=2.0):
        if idx > 5:
            raise ValueError
        return np.ones((len(toas), 2)) * idx, np.array([1e-8, 1e-8])
    s = gs.BasisGP(gpp.powerlaw(log10_A=pm.Constant(-14.), gamma=pm.Constant(3.)), chrom(idx=pm.Uniform(0, 7)("i")), name="c")(P())
    a = s.get_phi({"i": 1.0})
    try:
        s.get_phi({"i": 6.0})
    except ValueError:
        pass
    return np.allclose(a, s.get_phi({"i": 1.0}))

@check("C01 an interrupted evaluation leaves the cache consistent")
def _():
    class T:
        k, fail = ["a"], True
        @sb.cache_call("k")
        def f(self, params):
            if self.fail:
                raise KeyboardInterrupt
            return params["a"]
    t = T()
    try:
        t.f({"a": 1})
    except KeyboardInterrupt:
        pass
    t.fail = False
    return [t.f({"a": k}) for k in (1, 2, 1)] == [1, 2, 1]

@check("C01 the pulsar-level delay of a GP with coefficients follows the basis parameters")
def _():
    gpp = __import__("enterprise.signals.gp_priors", fromlist=["x"])
    @pm.function
    def chrom(toas, idx=2.0):
        return np.ones((len(toas), 2)) * idx, np.array([1e-8, 1e-8])
    s = gs.BasisGP(gpp.powerlaw(log10_A=pm.Constant(-14.), gamma=pm.Constant(3.)), chrom(idx=pm.Uniform(0, 7)("i")), coefficients=True, name="c")
    m = (ws.MeasurementNoise(efac=pm.Constant(1.0)) + s)(P())
    c = {"J0000_c_coefficients": np.array([1.0, 1.0])}
    a = m.get_delay({"i": 1.0, **c})
    b = m.get_delay({"i": 2.0, **c})
    r = m.get_rNr_logdet({"i": 1.0, **c}), m.get_rNr_logdet({"i": 2.0, **c})
    return np.allclose(2 * a, b) and r[0] != r[1]

@check("C10 get_phiinv(method='partition') without the determinant next to a dense prior")
def _():
    class Q:
        def __init__(s, n):
            s.name = n
            s.toas = s.residuals = s.toaerrs = np.array([1., 2., 3.])
    def fac(nm, bas, comb, phis, cross):
        class Sig(sb.CommonSignal if cross is not None else sb.Signal):
            signal_type = 'common basis' if cross is not None else 'basis'
            signal_name = signal_id = nm
            basis_combine = comb
            basis_params = []
            def __init__(s, psr):
                super().__init__(psr)
                s.name = psr.name + '_' + nm
                s._params = {}
            def get_basis(s, params=None):
                return np.array(bas)
            def get_phi(s, params):
                return sb.KernelMatrix(np.array(phis[s.psrname]))
            @classmethod
            def get_phicross(cls, a, b, params):
                return np.array(cross)
        return Sig
    den = fac('den', [[2., 9.], [6., 8.], [8., 6.]], False, {'a': [[4., 1.], [1., 3.]], 'b': [[5., 2.], [2., 7.]]}, None)
    com = fac('com', [[1., 2.], [3., 4.], [5., 7.]], True, {'a': [20., 30.], 'b': [40., 25.]}, [2., 1.])
    A = sb.PTA([sb.SignalCollection(s)(Q(n)) for n, s in zip('ab', ([den, com], [com, den]))])
    return np.allclose(A.get_phiinv({}, method='partition') @ A.get_phi({}), np.eye(8))

@check("C20 draws by get_coefficients after the singular value decomposition did not converge")
def _():
    from enterprise.signals import utils
    class Sig:
        signal_type, name = "basis", "p_gp"
        def get_basis(s, params=None):
            return np.eye(2)
    class M:
        _signals = [Sig()]
    class A:
        _commonsignals = {}
        pulsarmodels = [M()]
        get_TNr = lambda s, p: [np.zeros(2)]
        get_TNT = lambda s, p: [np.diag([3., 15.])]
        get_phiinv = lambda s, p, logdet, method: [np.array([1., 1.])]
    svd, randn, n = utils.sl.svd, np.random.randn, []
    def failing(a):
        n.append(1)
        if len(n) == 1:
            raise np.linalg.LinAlgError
        return svd(a)
    out = []
    try:
        utils.sl.svd = failing
        for k in range(2):
            n.clear()
            np.random.randn = lambda m: np.eye(m)[k]
            out.append(utils.get_coefficients(A(), {})["p_gp_coefficients"])
    finally:
        utils.sl.svd, np.random.randn = svd, randn
    return np.allclose(sum(np.outer(b, b) for b in out), np.diag([1 / 4, 1 / 16]))

print(f"{sum(R)}/{len(R)} OK")
