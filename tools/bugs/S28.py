PROP = "C24"
FILE = "signals/utils.py"
EDITS = [('''    return pol * h * np.heaviside(toas - t0, 0.5) * (toas - t0)
''', '''    return pol * h * np.maximum(toas - toas.min() - (t0 - toas.min()) * (t0 > toas.min()), 0.0)
''')]
NEEDS = "a burst before the first TOA"
BREAKS = "the ramp starts at the first TOA instead of at the burst"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import utils

p = Psr()
day = 86400.0
for t0 in (53200.0, 52900.0):
    x = utils.bwm_delay(p.toas, p.pos, log10_h=-13.0, cos_gwtheta=0.3, gwphi=1.0, gwpol=0.4, t0=t0)
    a, b, c = utils.create_gw_antenna_pattern(p.pos, np.arccos(0.3), 1.0)
    y = (np.cos(0.8) * a + np.sin(0.8) * b) * 1e-13 * np.clip(p.toas - t0 * day, 0, None)
    assert np.allclose(x, y, rtol=1e-9, atol=1e-15), t0
'''
