PROP = "C03"
FILE = "signals/signal_base.py"
EDITS = [('''        return np.hstack([p.get_ppf(params=params) for p in self.params])
''', '''        ppf = {p.name: p.get_ppf(params=params) for p in self.params}
        return np.hstack([ppf[name] for name in sorted(ppf, key=str.lower)])
''')]
NEEDS = "parameter names whose order differs when case is ignored (e.g. pulsars named B and J next to names in lower case)"
BREAKS = "the unit-hypercube transform is returned in another order than the parameter names"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import signal_base, parameter, white_signals

a, b = array(2)
m = white_signals.MeasurementNoise(efac=parameter.Uniform(0, 1)) + white_signals.TNEquadNoise(log10_tnequad=parameter.Uniform(10, 20)("common"))
n = white_signals.MeasurementNoise(efac=parameter.Uniform(0, 1)) + white_signals.TNEquadNoise(log10_tnequad=parameter.Uniform(10, 20)("Z"))
pta = signal_base.PTA([m(a), n(b)])
x = np.linspace(0.1, 0.9, len(pta.param_names))
y = pta.get_hypercube_transform(x)
for nm, p, u, v in zip(pta.param_names, pta.params, x, y):
    assert np.isclose(p.get_ppf(u), v), (nm, u, v)
'''
