PROP = "C17"
FILE = "signals/gp_priors.py"
EDITS = [('''    df = np.diff(np.concatenate((np.array([0]), f[::2])))
    hcf = (
        10**log10_A
        * (f / const.fyr) ** ((3 - gamma) / 2)
        * (1 + (f / 10**log10_fb) ** (1 / kappa)) ** (kappa * (gamma - delta) / 2)
    )
''', '''    df = np.diff(np.concatenate((np.array([0]), f[::2])))
    # beyond the break the curve is the second power law to working precision
    x = np.minimum((f / 10**log10_fb) ** (1 / kappa), 1e8)
    hcf = 10**log10_A * (f / const.fyr) ** ((3 - gamma) / 2) * (1 + x) ** (kappa * (gamma - delta) / 2)
''')]
NEEDS = "frequencies far above the break (factor of about six for the default smoothness)"
BREAKS = "the spectrum of the broken power law keeps the slope of the first segment far above the break"
DEMO = '''
import numpy as np
from enterprise.signals import gp_priors
import enterprise.constants as const

f = np.repeat(np.arange(1, 31) / (15 * const.yr), 2)
p = gp_priors.broken_powerlaw(f, -15.0, 4.33, 0.0, np.log10(2.0 / (15 * const.yr)))
df = 1 / (15 * const.yr)
fb = 2.0 / (15 * const.yr)
hc = 1e-15 * (f / const.fyr) ** ((3 - 4.33) / 2) * (1 + (f / fb) ** 10) ** (0.1 * 4.33 / 2)
assert np.allclose(p * 1e40, hc**2 / 12 / np.pi**2 / f**3 * df * 1e40, rtol=1e-6, atol=0)
'''
