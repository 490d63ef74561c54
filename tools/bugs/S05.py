PROP = "C09"
FILE = "signals/signal_base.py"
EDITS = [('''            elif left_array is not None and left_array.ndim == 1:
                ret = np.dot(other.T, self._solve_D1(left_array))
''', '''            elif left_array is not None and left_array.ndim == 1:
                ret = np.dot(other.T, left_array / self._nvec)
''')]
NEEDS = "Sherman-Morrison jitter matrix, two-dimensional right side with a one-dimensional left factor"
BREAKS = "the product leaves out the jitter blocks"
DEMO = '''
import numpy as np
from enterprise.signals import signal_base as sb

N = sb.ShermanMorrison(np.array([2.0, 3.0]), [slice(0, 3), slice(3, 6)], np.arange(1.0, 7.0))
x = np.linspace(0, 1, 6)
X = np.vander(x, 3)
D = np.diag(np.arange(1.0, 7.0))
D[:3, :3] += 2
D[3:, 3:] += 3
Di = np.linalg.inv(D)
assert np.allclose(N.solve(x, left_array=X), X.T @ Di @ x)
assert np.allclose(N.solve(X, left_array=X), X.T @ Di @ X)
assert np.allclose(N.solve(X, left_array=x), x @ Di @ X)
'''
