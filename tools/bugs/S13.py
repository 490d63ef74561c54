PROP = "C16"
FILE = "signals/parameter.py"
EDITS = [('''        mask = np.logical_or(samp > pmax, samp < pmin)
        while np.any(mask):
            if isinstance(mu, np.ndarray):
                samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
            else:
                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
            mask = np.logical_or(samp > pmax, samp < pmin)
''', '''        mask = np.logical_or(samp > pmax, samp < pmin)
        while np.any(mask):
            if isinstance(mu, np.ndarray):
                samp[mask] = np.random.normal(mu[: sum(mask)], sigma[: sum(mask)], size=sum(mask))
            else:
                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
            mask = np.logical_or(samp > pmax, samp < pmin)
''')]
NEEDS = "a vector truncated-normal parameter with different centers per component, when a component other than the first is rejected"
BREAKS = "rejected components are redrawn around the center of another component"
DEMO = '''
import numpy as np
from enterprise.signals import parameter as pm

np.random.seed(1)
mu, sg = np.array([0.0, 5.0]), np.array([0.01, 1.0])
v = np.array([pm.TruncNormalSampler(mu, sg, -1.0, 5.0, size=2) for i in range(400)])
# half of the draws of the second component are redrawn: all of them must come from N(5, 1) below 5
assert abs(v[:, 1].mean() - (5 - np.sqrt(2 / np.pi))) < 0.2, v[:, 1].mean()
'''
