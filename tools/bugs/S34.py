PROP = "C18"
FILE = "signals/utils.py"
EDITS = [('''    nmat = Mmat / norm
    nmat[:, norm == 0] = 0

    return nmat, np.ones_like(Mmat.shape[1])
''', '''    nmat = np.zeros_like(Mmat)
    ok = ~np.isclose(norm, 0)
    nmat[:, ok] = Mmat[:, ok] / np.asarray(norm)[ok]

    return nmat, np.ones_like(Mmat.shape[1])
''')]
NEEDS = "a column of the design matrix with a very small scale (as those of spin-frequency derivatives in some units)"
BREAKS = "columns of small norm are set to zero instead of being normalised"
DEMO = '''
import numpy as np
from enterprise.signals import utils

M = np.array([[3e-11, 1.0], [4e-11, 1.0], [0.0, 1.0]])
n = utils.normed_tm_basis(M)[0]
assert np.allclose(np.sqrt(np.sum(n**2, axis=0)), 1.0), n
'''
