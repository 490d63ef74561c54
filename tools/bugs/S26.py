PROP = "C22"
FILE = "signals/signal_base.py"
EDITS = [('''            return sorted({param for signal in self._signals for param in signal.params}, key=lambda par: par.name)
''', '''            return sorted({param for signal in self._signals for param in signal.params}, key=lambda par: par.name.split("_", 1)[-1])
''')]
NEEDS = "parameters of different pulsars' names, or one common and one own parameter, that agree after the first underscore"
BREAKS = "ties are left in the order of the set, which depends on memory addresses"
DEMO = '''
import os, subprocess, sys
import mockpsr
env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.abspath(mockpsr.__file__))] + [x for x in sys.path if x]))
prog = """
import sys
from mockpsr import Psr
from enterprise.signals import parameter, white_signals, selections
keep = [object() for i in range(int(sys.argv[1]))]
junk = [parameter.Uniform(0, 1)("x%d" % i) for i in range(int(sys.argv[1]) * 7)]
del junk[::2]
p = Psr("J0000+00")
s = white_signals.MeasurementNoise(efac=parameter.Uniform(0, 1)("b_efac"))
for n in "acdefghij":
    s = s + white_signals.TNEquadNoise(log10_tnequad=parameter.Uniform(0, 1)(n + "_efac"), name=n)
print([q.name for q in s(p).params])
"""
outs = set()
for i in range(6):
    outs.add(subprocess.run([sys.executable, "-c", prog, str(i * 13)], capture_output=True, text=True, check=True, env=env).stdout)
assert len(outs) == 1, outs
o = eval(outs.pop())
assert o == sorted(o), o
'''
