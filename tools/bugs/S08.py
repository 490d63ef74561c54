PROP = "C08"
FILE = "signals/signal_base.py"
EDITS = [('''                phiinv, logdet_phi = pl
                Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover
                    return -np.inf
''', '''                phiinv, logdet_phi = pl
                Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover
                    loglike = -np.inf
                    break
'''), ('''                loglike += 0.5 * (np.dot(TNr, expval) - logdet_sigma - logdet_phi)

        return loglike
''', '''                loglike += 0.5 * (np.dot(TNr, expval) - logdet_sigma - logdet_phi)

        return loglike if np.isfinite(loglike) else np.nan_to_num(loglike)
''')]
NEEDS = "independent pulsars and hyperparameters for which the factorisation of Sigma fails"
BREAKS = "the failure is reported as a huge finite number instead of minus infinity"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import signal_base, parameter, gp_signals, white_signals

@parameter.function
def bad(f, s=1.0):
    return -s * np.ones_like(f)

psrs = array(2)
m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + gp_signals.FourierBasisGP(bad(s=parameter.Uniform(0, 1)), components=3)
pta = signal_base.PTA([m(p) for p in psrs])
v = pta.get_lnlikelihood({k: 1e-16 for k in pta.param_names})
assert v == -np.inf or np.isnan(v) and False, v
'''
