PROP = "C06"
FILE = "signals/parameter.py"
EDITS = [('''    ret = {}
    _sample(parlist, ret)

    return ret
''', '''    ret = {}
    for par in parlist:
        draw = {}
        _sample([par], draw)
        ret.update(draw)

    return ret
''')]
NEEDS = "two parameters of one list sharing a hyperparameter"
BREAKS = "a shared hyperparameter is drawn again for the second parameter, so the returned value is not the one the first parameter was drawn with"
DEMO = '''
import numpy as np
from enterprise.signals import parameter as pm

mu = pm.Uniform(0, 1)("mu")


def P(value, m):
    return np.ones_like(value)


def S(m, size=None):
    return m


def U(name):
    return pm.UserParameter(prior=pm.Function(P, m=mu), sampler=S)(name)


np.random.seed(3)
d = pm.sample([U("a"), U("b")])
assert sorted(d) == ["a", "b", "mu"]
assert d["a"] == d["b"] == d["mu"], d
'''
