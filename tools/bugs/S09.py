PROP = "C11"
FILE = "signals/signal_base.py"
EDITS = [('''                    if not signal.basis_params:
                        idx[signal] = []
''', '''                    if signal.basis_combine or not signal.basis_params:
                        idx[signal] = []
''')]
NEEDS = "a basis that varies with a parameter, allowed to combine, whose columns at the default parameters coincide with those of another signal's basis"
BREAKS = "a signal with a parameter-dependent basis shares columns with another signal, so one overwrites the other's basis"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import signal_base, parameter, gp_signals, gp_priors

@parameter.function
def scaled(toas, s=1.0, nmodes=2):
    t = (toas - toas.min()) / (toas.max() - toas.min())
    F = np.ascontiguousarray(np.stack([np.sin(2 * np.pi * t), np.cos(2 * np.pi * t)]).T)
    return s * F, np.array([1e-9, 1e-9])

p = array(1)[0]
pr = gp_priors.powerlaw(log10_A=parameter.Constant(-14), gamma=parameter.Constant(3))
a = gp_signals.BasisGP(pr, scaled(s=parameter.Uniform(0, 5)), name="a")
b = gp_signals.BasisGP(pr, scaled(), name="b")
m = (a + b)(p)
F = m.get_basis({"J0000+00_a_s": 3.0})
assert F.shape[1] == 4, F.shape
assert np.allclose(F[:, :2], 3 * F[:, 2:])
'''
