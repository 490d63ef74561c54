PROP = "C01"
FILE = "signals/signal_base.py"
EDITS = [('''                        ret.append((key, tuple(params[key])))
''', '''                        vec = np.asarray(params[key], dtype=float)
                        ret.append((key, (len(vec), float(np.dot(vec, vec)))))
''')]
NEEDS = "two evaluations that differ in a vector parameter by a permutation or a sign (same length, same norm)"
BREAKS = "the cache serves the result computed for the other vector"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import parameter, deterministic_signals

@parameter.function
def wave(toas, amps=None):
    t = (toas - 4.6e9) / 1e7
    return amps[0] * t + amps[1] * t**2

p = Psr()
s = deterministic_signals.Deterministic(wave(amps=parameter.Uniform(-1, 1, size=2)("amps")), name="w")
m = s(p)
a, b = {"amps": np.array([1.0, 2.0])}, {"amps": np.array([2.0, -1.0])}
m.get_delay(a)
x = m.get_delay(b).copy()
assert np.array_equal(x, s(p).get_delay(b)), (x[:3], s(p).get_delay(b)[:3])
'''
