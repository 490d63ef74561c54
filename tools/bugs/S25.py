PROP = "C21"
FILE = "signals/gp_signals.py"
EDITS = [('''    basis = utils.createfourierdesignmatrix_physicalephem(
        frame_drift_rate=frame_drift_rate,
        d_jupiter_mass=d_jupiter_mass,
        d_saturn_mass=d_saturn_mass,
        d_uranus_mass=d_uranus_mass,
        d_neptune_mass=d_neptune_mass,
''', '''    basis = utils.createfourierdesignmatrix_physicalephem(
        frame_drift_rate=frame_drift_rate,
        d_jupiter_mass=d_jupiter_mass,
        d_saturn_mass=d_saturn_mass,
        d_uranus_mass=d_uranus_mass,
        d_neptune_mass=d_uranus_mass and d_neptune_mass,
''')]
NEEDS = "the ephemeris process with the Uranus perturbation switched off and the Neptune one on"
BREAKS = "switching off one perturbation silently switches off another"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import gp_signals

p = Psr()
p.planetssb = p.planetssb[:, :, :3]
kw = dict(jup_orb_elements=None, sat_orb_elements=None)
m = gp_signals.FourierBasisCommonGP_physicalephem(**kw)(p)
n = gp_signals.FourierBasisCommonGP_physicalephem(d_uranus_mass=None, **kw)(p)
assert n.get_basis({}).shape[1] == m.get_basis({}).shape[1] - 1, (n.get_basis({}).shape, m.get_basis({}).shape)
'''
