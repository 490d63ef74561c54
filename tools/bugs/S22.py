PROP = "C14"
FILE = "pulsar.py"
EDITS = [('''                if isinstance(getattr(psr, attr), PulsarInflater):
                    setattr(psr, attr, getattr(psr, attr).inflate())

            psr._deflated = "inflated"
''', '''                if isinstance(getattr(psr, attr), PulsarInflater):
                    setattr(psr, attr, getattr(psr, attr).inflate())

            psr._deflated = "pristine"
''')]
NEEDS = "deflating, inflating and deflating again, then destroying"
BREAKS = "an inflated pulsar is deflated a second time into new segments, and those of the first time are never unlinked"
DEMO = '''
import numpy as np
import enterprise.pulsar as ep

made = []
class Fake:
    def __init__(self, a):
        self.a = np.array(a)
        made.append(self)
        self.dead = 0
    def inflate(self):
        return self.a
    def destroy(self):
        self.dead += 1
ep.PulsarInflater = Fake
p = ep.Tempo2Pulsar.__new__(ep.Tempo2Pulsar)
p._designmatrix, p._planetssb, p._sunssb, p._flags = np.ones((3, 2)), np.ones((3, 9, 6)), np.ones((3, 6)), np.ones(3)
p.deflate()
p.inflate()
p.deflate()
p.destroy()
assert len(made) == 4, len(made)
assert isinstance(p._designmatrix, np.ndarray)
'''
