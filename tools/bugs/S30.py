PROP = "C27"
FILE = "signals/gp_signals.py"
EDITS = [('''            ret = []
            for basis in self._bases.values():
                ret.extend([pp.name for pp in basis.params])
            return ret
''', '''            ret = []
            for basis in self._bases.values():
                ret = [pp.name for pp in basis.params] or ret
            return ret
''')]
NEEDS = "a Gaussian process with free basis parameters and a selection with more than one part"
BREAKS = "only the basis parameters of the last part are declared, so a change of the others goes unnoticed"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import parameter, gp_signals, gp_priors, gp_bases, selections

p = Psr()
basis = gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, idx=parameter.Uniform(0, 5))
pr = gp_priors.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(4.0))
m = gp_signals.BasisGP(pr, basis, selection=selections.Selection(selections.by_backend), name="chrom")(p)
free = [q.name for q in m.params]
assert sorted(m.basis_params) == sorted(free), m.basis_params
F = m.get_basis({free[0]: 1.0, free[1]: 1.0}).copy()
G = m.get_basis({free[0]: 2.0, free[1]: 1.0}).copy()
assert not np.array_equal(F, G)
'''
