PROP = "C01"
FILE = "signals/signal_base.py"
EDITS = [('''            delays = [signal.get_delay(params) for signal in self._signals]
            return sum(delay for delay in delays if delay is not None)
''', '''            ret = None
            for signal in self._signals:
                delay = signal.get_delay(params)
                if delay is None or np.isscalar(delay):
                    continue
                if ret is None:
                    ret = delay
                else:
                    ret += delay
            return 0 if ret is None else ret
''')]
NEEDS = "two deterministic signals in one model, the first evaluated again at the same parameters after the second changed"
BREAKS = "the total delay is accumulated into the array cached by the first signal, so later evaluations return too much"
DEMO = '''
import numpy as np
from mockpsr import Psr
from enterprise.signals import signal_base, parameter, white_signals, deterministic_signals

@parameter.function
def ramp(toas, slope=1.0):
    return slope * (toas - 4.6e9)

p = Psr()
s = deterministic_signals.Deterministic(ramp(slope=parameter.Uniform(0, 1)("a")), name="one") + \\
    deterministic_signals.Deterministic(ramp(slope=parameter.Uniform(0, 1)("b")), name="two")
m = s(p)
m.get_delay({"a": 1.0, "b": 1.0})
x = m.get_delay({"a": 1.0, "b": 2.0})
assert np.allclose(x, 3.0 * (p.toas - 4.6e9)), (x / (p.toas - 4.6e9))[:3]
'''
