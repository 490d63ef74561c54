PROP = "C26"
FILE = "signals/signal_base.py"
EDITS = [('''        if hasattr(other, "_signalcollections"):
            return PTA(self._signalcollections + other._signalcollections, lnlikelihood=self.lnlikelihood)
''', '''        if hasattr(other, "_signalcollections"):
            mine = self.keys()
            return PTA(
                self._signalcollections + [sc for sc in other._signalcollections if sc.psrname not in mine],
                lnlikelihood=self.lnlikelihood,
            )
''')]
NEEDS = "adding two arrays of models that contain models of the same pulsar"
BREAKS = "a model of the second array is dropped when the first has one for a pulsar of that name"
DEMO = '''
from mockpsr import array
from enterprise.signals import signal_base, parameter, white_signals

a, b = array(2)
m = signal_base.SignalCollection([white_signals.MeasurementNoise(efac=parameter.Constant(1.0))])
n = signal_base.SignalCollection([white_signals.TNEquadNoise(log10_tnequad=parameter.Constant(-6.0))])
x = signal_base.PTA([m(a)]) + signal_base.PTA([n(a), m(b)])
assert x.keys() == [a.name, a.name, b.name], x.keys()
'''
