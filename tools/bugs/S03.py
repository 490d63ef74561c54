PROP = "C04"
FILE = "signals/signal_base.py"
EDITS = [('''    def set_default_params(self, params):
        for sc in self._signalcollections:
            sc.set_default_params(params)
''', '''    def set_default_params(self, params):
        done = set()
        for sc in self._signalcollections:
            if sc.psrname not in done:
                sc.set_default_params({k: v for k, v in params.items() if k not in done})
            done.update(sc.param_names)
''')]
NEEDS = "two pulsar models where a name is a constant in the second and a free parameter in the first, e.g. a common parameter fixed for one pulsar only"
BREAKS = "a constant keeps its old value although a value was given for its name"
DEMO = '''
from mockpsr import array
from enterprise.signals import signal_base, parameter, gp_signals, gp_priors

a, b = array(2)


def red(gam):
    return gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -12)("A"), gamma=gam), components=3, name="g")


pta = signal_base.PTA([signal_base.SignalCollection([red(parameter.Uniform(0, 7)("gw_gamma"))])(a),
                       signal_base.SignalCollection([red(parameter.Constant()("gw_gamma"))])(b)])
pta.set_default_params({"gw_gamma": 4.33})
got = pta.get_phi({"A": -14, "gw_gamma": 4.33})
import numpy as np
assert np.isfinite(np.array(got[1])).all()
c = [p for p in pta.pulsarmodels[1]._signals[0]._params.values() if p.name == "gw_gamma"]
assert c[0].value == 4.33, c[0].value
'''
