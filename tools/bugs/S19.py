PROP = "C02"
FILE = "signals/utils.py"
EDITS = [('''    nmat = Mmat / norm
''', '''    nmat = np.divide(Mmat, norm, out=Mmat)
''')]
NEEDS = "a pulsar that hands out its stored design matrix, such as one read from a feather file; a second signal built from it"
BREAKS = "building a normalised timing model rescales the pulsar's own design matrix"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import gp_signals

p = Psr()
keep = p.Mmat.copy()
from enterprise.signals import utils
utils.normed_tm_basis()("tm", psr=p)()
assert np.array_equal(p.Mmat, keep)
'''
