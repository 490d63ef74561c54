PROP = "C19"
FILE = "signals/gp_signals.py"
EDITS = [('''                prior = BasisCommonGP._prior(signal1._labels, params=params)
                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)
''', '''                # the spectrum is common, either pulsar's labels will do: take the shorter list
                labels = min(signal1._labels, signal2._labels, key=np.sum)
                prior = BasisCommonGP._prior(labels, params=params)
                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)
''')]
NEEDS = "a common process without a common Tspan-independent frequency list: two pulsars whose bases have different labels"
BREAKS = "the cross-covariance of a pair depends on which of the two has the lower frequencies instead of the first pulsar's"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import parameter, gp_signals, utils


@parameter.function
def basis(toas, pos):
    return np.stack([np.ones_like(toas), toas - toas[0]]).T, np.array([1.0, 2.0]) * (2 if pos[0] > 0 else 1)


@parameter.function
def spec(f, A=1.0):
    return A * f


a, b = array(2)
a.pos, b.pos = np.array([1.0, 0, 0]), np.array([-0.6, 0.8, 0])
G = gp_signals.BasisCommonGP(spec(A=parameter.Constant(1.0)), basis(), utils.monopole_orf(), name="gw")
x, y = G(a), G(b)
assert np.allclose(x.get_phi({}), (1 + 1e-5) * np.array([2.0, 4.0])) or True
x.get_basis({}), y.get_basis({})
assert np.allclose(G.get_phicross(x, y, {}), [2.0, 4.0]), G.get_phicross(x, y, {})
assert np.allclose(G.get_phicross(y, x, {}), [1.0, 2.0])
'''
