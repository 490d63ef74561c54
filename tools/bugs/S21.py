PROP = "C13"
FILE = "pulsar.py"
EDITS = [('''            rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
            cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
''', '''            cnames = [c for c in f.column_names if c.startswith(array)]
            ncomp = 3 if len(cnames) % 3 == 0 else 6
            cols = [cnames[i : i + ncomp] for i in range(0, len(cnames), ncomp)]
''')]
NEEDS = "planetary vectors with six components (position and velocity)"
BREAKS = "the planets of a pulsar read back are cut into the wrong rows"
DEMO = '''
import os, tempfile
import numpy as np
from mockpsr import Psr
from enterprise.pulsar import FeatherPulsar

p = Psr()
p._toas = p.toas
p.dmx = {}
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "p.feather")
    FeatherPulsar.save_feather(p, f)
    q = FeatherPulsar.read_feather(f)
assert q.planetssb.shape == p.planetssb.shape, q.planetssb.shape
assert np.array_equal(q.planetssb, p.planetssb)
'''
