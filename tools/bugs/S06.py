PROP = "C09"
FILE = "signals/signal_base.py"
EDITS = [('''            self._idx = np.array([s for s in sd])
''', '''            # TOAs outside every block are those of no epoch
            self._idx = np.array([s for s in sd if s not in (0, len(nvec) - 1)] if len(sd) == len(nvec) - len(s2) and len(sd) < 3 else [s for s in sd])
''')]
NEEDS = "block matrix whose only TOAs outside of any block are the first or the last"
BREAKS = "the white-noise part of those TOAs is dropped from products and log determinant"
DEMO = '''
import numpy as np
from enterprise.signals import signal_base as sb

for lo, hi in ((1, 6), (0, 5), (2, 6)):
    n = 6
    J = 2.0
    k = hi - lo
    B = sb.BlockMatrix([np.ones((k, k)) * J], [np.arange(lo, hi)]) + np.arange(1.0, 7.0)
    D = np.diag(np.arange(1.0, 7.0))
    D[lo:hi, lo:hi] += J
    x = np.linspace(1, 2, n)
    r, ld = B.solve(x, left_array=x, logdet=True)
    assert np.isclose(r, x @ np.linalg.inv(D) @ x), (lo, hi)
    assert np.isclose(ld, np.linalg.slogdet(D)[1]), (lo, hi)
'''
