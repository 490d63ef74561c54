PROP = "C15"
FILE = "pulsar.py"
EDITS = [('''    parfile = [x for x in args if isinstance(x, str) and x.split(".")[-1] == "par"]
''', '''    parfile = [x for x in args if isinstance(x, str) and "par" in x.split(".")[1:]]
''')]
NEEDS = "a tim file whose name has .par. inside, given before the par file"
BREAKS = "the tim file is taken for the par file"
DEMO = '''
import os, shutil, tempfile
import numpy as np
from enterprise import pulsar

d = tempfile.mkdtemp()
try:
    for f in ("J1.par.tim", "J1.par"):
        open(os.path.join(d, f), "w").write("x")
    got = []

    class Stop(Exception):
        pass

    def gmt(par, tim, **kw):
        got.append((os.path.basename(par), os.path.basename(tim)))
        raise Stop

    pulsar.get_model_and_toas = gmt
    pulsar.pint = pulsar.pint or object()
    pulsar.TOAs = getattr(pulsar, "TOAs", type("A", (), {}))
    pulsar.TimingModel = getattr(pulsar, "TimingModel", type("B", (), {}))
    try:
        pulsar.Pulsar(os.path.join(d, "J1.par.tim"), os.path.join(d, "J1.par"), timing_package="pint")
    except Stop:
        pass
    assert got == [("J1.par", "J1.par.tim")], got
finally:
    shutil.rmtree(d)
'''
