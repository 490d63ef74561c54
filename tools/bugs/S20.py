PROP = "C12"
FILE = "pulsar.py"
EDITS = [('''            self._flags[flagname] = values[self._iisort]
''', '''            self._flags[flagname] = values[self._isort]
''')]
NEEDS = "a pulsar whose time-sorting permutation is not its own inverse, with a flag set by the user"
BREAKS = "flag values end up on other TOAs than those they were given for"
DEMO = '''
import numpy as np
from enterprise.pulsar import BasePulsar

class P(BasePulsar):
    pass
p = P()
p._sort = True
p._toas = np.array([30.0, 10.0, 40.0, 20.0])
p._flags = {"f": np.array(["a", "b", "c", "d"])}
p.sort_data()
v = np.array(["w", "x", "y", "z"])
p.set_flags("mine", v)
assert list(p.flags["mine"]) == list(v), p.flags
assert list(p.flags["f"]) == ["b", "d", "a", "c"]
'''
