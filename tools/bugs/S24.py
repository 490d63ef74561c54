PROP = "C18"
FILE = "signals/gp_bases.py"
EDITS = [('''            chrom_fac = (1400 / freqs) ** idx * np.sqrt(12) * np.pi / 1400 / 1400 / 2.41e-4
''', '''            chrom_fac = (1400 / freqs) ** 2 * np.sqrt(12) * np.pi / 1400 / 1400 / 2.41e-4
''')]
NEEDS = "the general Fourier basis in TempoNest normalisation with a chromatic index other than two"
BREAKS = "the requested chromatic index is ignored"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import gp_bases

p = Psr()
F, f = gp_bases.createfourierdesignmatrix_general(p.toas, p.freqs, p.flags, idx=4, tndm=True, nmodes=3)
G, g = gp_bases.createfourierdesignmatrix_dm_tn(p.toas, p.freqs, idx=4, nmodes=3)
assert np.allclose(F, G, rtol=1e-12)
'''
