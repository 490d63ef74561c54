PROP = "C03"
FILE = "signals/signal_base.py"
EDITS = [('''            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
            ct += n
        return ret''', '''            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
            ct += min(n, len(p.params))
        return ret''')]
NEEDS = "a vector parameter of size at least two that is not the last of the sorted parameter list"
BREAKS = "entries of the parameter vector after a vector parameter are read from the wrong slots"
DEMO = '''
import numpy as np
from mockpsr import array
from enterprise.signals import signal_base, parameter, gp_signals, gp_priors, white_signals

psrs = array(2)
rho = parameter.Uniform(-9, -4, size=5)
s = white_signals.MeasurementNoise(efac=parameter.Uniform(0.1, 5)) + gp_signals.FourierBasisGP(gp_priors.free_spectrum(log10_rho=rho), components=5)
pta = signal_base.PTA([s(p) for p in psrs])
xs = np.linspace(0.1, 0.9, len(pta.param_names))
d = pta.map_params(xs)
flat = np.hstack([d[p.name] for p in pta.params])
assert flat.shape == xs.shape and np.allclose(flat, xs), (flat, xs)
'''
