PROP = "C20"
FILE = "signals/utils.py"
EDITS = [('''            b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)

            pardict, ntot = {}, 0
            for i, model in enumerate(pta.pulsarmodels):
                for sig in model._signals:
                    if sig.signal_type in ["basis", "common basis"]:
                        nb = sig.get_basis(params=params).shape[1]
''', '''            b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)

            pardict, ntot, widths = {}, 0, {}
            for i, model in enumerate(pta.pulsarmodels):
                for sig in model._signals:
                    if sig.signal_type in ["basis", "common basis"]:
                        # the width of a process' basis does not change between pulsars
                        if sig.signal_id not in widths:
                            widths[sig.signal_id] = sig.get_basis(params=params).shape[1]
                        nb = widths[sig.signal_id]
''')]
NEEDS = "correlated pulsars whose bases of the same signal differ in width, e.g. timing models with different numbers of parameters"
BREAKS = "coefficients of the later pulsars are taken from the wrong columns"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import signal_base, parameter, gp_signals, gp_priors, white_signals, utils

a, b = Psr("J0000+00", seed=1, nm=4), Psr("J1111-11", seed=2, nm=3)
C = parameter.Constant
m = (white_signals.MeasurementNoise(efac=C(1.0)) + gp_signals.TimingModel()
     + gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=C(-13), gamma=C(3)), utils.hd_orf(), components=3, Tspan=3e8, combine=False, name="gw"))
pta = signal_base.PTA([m(a), m(b)])
d = utils.get_coefficients(pta, {}, variance=False)
S = [len(d[k]) for k in ("J0000+00_linear_timing_model_coefficients", "J0000+00_gw_coefficients", "J1111-11_linear_timing_model_coefficients", "J1111-11_gw_coefficients")]
assert S == [4, 6, 3, 6], S
'''
