PROP = "C10"
FILE = "signals/signal_base.py"
EDITS = [('''                        Phi[block2, block1][idx2, idx1] += crossdiag
''', '''                        Phi[block2, block1][idx1, idx2] += crossdiag
''')]
NEEDS = "two correlated pulsars in which the common process occupies different columns (one pulsar has an extra basis before it)"
BREAKS = "the lower block of phi holds the cross-covariance at the columns of the other pulsar"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import signal_base, parameter, gp_signals, gp_priors, utils

a, b = array(2)
pl = gp_priors.powerlaw(log10_A=parameter.Constant(-6.0), gamma=parameter.Constant(1.0))
gw = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=2, name="gw", combine=False)
tm = gp_signals.TimingModel()
pta = signal_base.PTA([(tm + gw)(a), signal_base.SignalCollection([gw])(b)])
phi = np.array(pta.get_phi({}))
na = phi.shape[0] - 4
assert np.allclose(phi, phi.T, rtol=1e-10, atol=0), "phi is not symmetric"
'''
