PROP = "C07"
FILE = "signals/selections.py"
EDITS = [('''            val: (freqs >= fl) & (freqs < fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))
''', '''            val: (freqs >= fl) & (freqs <= fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))
''')]
NEEDS = "a TOA observed exactly at a band edge"
BREAKS = "a TOA at the common edge of two bands belongs to both"
DEMO = '''
import numpy as np
from enterprise.signals import selections

f = np.array([500.0, 1000.0, 1500.0, 2000.0, 2500.0])
m = selections.by_freq_band()(f)
assert (sum(v.astype(int) for v in m.values()) == 1).all(), m
assert not m["Band.1"][1]
'''
