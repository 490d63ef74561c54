PROP = "C15"
FILE = "pulsar.py"
EDITS = [('''            else:
                raise ValueError(f"Unknown timing package {timing_package}")
        finally:
            os.chdir(cwd)
''', '''            else:
                raise ValueError(f"Unknown timing package {timing_package}")
        except (ValueError, TypeError, RuntimeError, KeyError, IndexError):
            os.chdir(cwd)
            raise
''', ), ('''                return Tempo2Pulsar(
                    t2pulsar,
                    sort=sort,
                    drop_t2pulsar=drop_t2pulsar,
                    planets=planets,
                    par_name=relparfile,
                    tim_name=reltimfile,
                )
''', '''                os.chdir(cwd)
                return Tempo2Pulsar(
                    t2pulsar,
                    sort=sort,
                    drop_t2pulsar=drop_t2pulsar,
                    planets=planets,
                    par_name=relparfile,
                    tim_name=reltimfile,
                )
''')]
NEEDS = "the timing package failing with an error of another kind, e.g. a missing INCLUDE file"
BREAKS = "the process is left in the directory of the tim file"
DEMO = '''
import os, tempfile, types
import enterprise.pulsar as ep

class Fail(Exception):
    pass
def tempopulsar(*a, **k):
    raise Fail
ep.t2 = types.SimpleNamespace(tempopulsar=tempopulsar)
ep.t2.tempopulsar = type("tempopulsar", (), {"__init__": lambda self, *a, **k: tempopulsar()})
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/sub")
    open(d + "/sub/a.par", "w").write("PSR J0000+00")
    open(d + "/sub/a.tim", "w").write("FORMAT 1")
    cwd = os.getcwd()
    try:
        ep.Pulsar(d + "/sub/a.par", d + "/sub/a.tim", timing_package="tempo2")
    except Fail:
        pass
    now = os.getcwd()
    os.chdir(cwd)
assert now == cwd, now
'''
