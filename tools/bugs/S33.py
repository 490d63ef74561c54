PROP = "C25"
FILE = "signals/anis_coefficients.py"
EDITS = [('''    alm[0] = np.sum(h) * np.sqrt(4 * np.pi) / len(h)
''', '''    alm[0] = alm[0].real if lmax > 0 else np.median(h) * np.sqrt(4 * np.pi)
''')]
NEEDS = "a skewed map expanded to degree zero"
BREAKS = "the monopole is the median of the map instead of its mean"
DEMO = '''
import numpy as np
from enterprise.signals import anis_coefficients as ac

h = np.ones(12 * 4 ** 2)
h[:5] = 40.0
c = ac.clmFromMap_fast(h, 0)
assert np.allclose(c, ac.clmFromMap(h, 0)), c
'''
