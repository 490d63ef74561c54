PROP = "C23"
FILE = "signals/gp_signals.py"
EDITS = [('''            for index, key in enumerate(sorted(psr.dmx)):
''', '''            first = min(psr.fitpars.index(key) for key in psr.dmx)
            for index, key in enumerate(sorted(psr.dmx)):
'''), ('''                self._dmindex.append(psr.fitpars.index(key))
''', '''                self._dmindex.append(first + index)
''')]
NEEDS = "DMX parameters that are not in sorted order, or not contiguous, among the fitted parameters"
BREAKS = "the estimated variance of one DMX window is put on the prior of another parameter"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import parameter, gp_signals

p = Psr(nm=4)
p.fitpars = ["Offset", "DMX_0002", "F0", "DMX_0001"]
n = len(p.toas)
p.flags["pp_dm"] = np.full(n, 10.0)
p.flags["pp_dme"] = np.linspace(1e-4, 3e-4, n)
t = p.stoas / 86400
p.dmx = {"DMX_0001": {"fit": True, "DMX": 0.0, "DMXR1": t[0] - 1, "DMXR2": t[n // 3]},
         "DMX_0002": {"fit": True, "DMX": 0.0, "DMXR1": t[n // 3], "DMXR2": t[-1] + 1}}
m = gp_signals.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=None, dmjump=None)(p)
phi = np.asarray(m.get_phi({}))
k = n // 3
w = p.flags["pp_dme"] ** -2.0
assert np.isclose(phi[3], 1 / w[:k].sum(), rtol=1e-9), phi
assert np.isclose(phi[1], 1 / w[k:].sum(), rtol=1e-9), phi
assert phi[2] == 1e40
'''
